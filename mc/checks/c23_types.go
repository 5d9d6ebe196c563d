// Code generated by hand of a script: every combination of the interfaces of a value.
package checks

type enc01 struct{ mStmt }
type enc02 struct{ mInt }
type enc03 struct {
	mStmt
	mInt
}
type enc04 struct{ mBool }
type enc05 struct {
	mStmt
	mBool
}
type enc06 struct {
	mInt
	mBool
}
type enc07 struct {
	mStmt
	mInt
	mBool
}
type enc08 struct{ mTime }
type enc09 struct {
	mStmt
	mTime
}
type enc10 struct {
	mInt
	mTime
}
type enc11 struct {
	mStmt
	mInt
	mTime
}
type enc12 struct {
	mBool
	mTime
}
type enc13 struct {
	mStmt
	mBool
	mTime
}
type enc14 struct {
	mInt
	mBool
	mTime
}
type enc15 struct {
	mStmt
	mInt
	mBool
	mTime
}
type enc16 struct{ mStr }
type enc17 struct {
	mStmt
	mStr
}
type enc18 struct {
	mInt
	mStr
}
type enc19 struct {
	mStmt
	mInt
	mStr
}
type enc20 struct {
	mBool
	mStr
}
type enc21 struct {
	mStmt
	mBool
	mStr
}
type enc22 struct {
	mInt
	mBool
	mStr
}
type enc23 struct {
	mStmt
	mInt
	mBool
	mStr
}
type enc24 struct {
	mTime
	mStr
}
type enc25 struct {
	mStmt
	mTime
	mStr
}
type enc26 struct {
	mInt
	mTime
	mStr
}
type enc27 struct {
	mStmt
	mInt
	mTime
	mStr
}
type enc28 struct {
	mBool
	mTime
	mStr
}
type enc29 struct {
	mStmt
	mBool
	mTime
	mStr
}
type enc30 struct {
	mInt
	mBool
	mTime
	mStr
}
type enc31 struct {
	mStmt
	mInt
	mBool
	mTime
	mStr
}
type enc32 struct{ mVal }
type enc33 struct {
	mStmt
	mVal
}
type enc34 struct {
	mInt
	mVal
}
type enc35 struct {
	mStmt
	mInt
	mVal
}
type enc36 struct {
	mBool
	mVal
}
type enc37 struct {
	mStmt
	mBool
	mVal
}
type enc38 struct {
	mInt
	mBool
	mVal
}
type enc39 struct {
	mStmt
	mInt
	mBool
	mVal
}
type enc40 struct {
	mTime
	mVal
}
type enc41 struct {
	mStmt
	mTime
	mVal
}
type enc42 struct {
	mInt
	mTime
	mVal
}
type enc43 struct {
	mStmt
	mInt
	mTime
	mVal
}
type enc44 struct {
	mBool
	mTime
	mVal
}
type enc45 struct {
	mStmt
	mBool
	mTime
	mVal
}
type enc46 struct {
	mInt
	mBool
	mTime
	mVal
}
type enc47 struct {
	mStmt
	mInt
	mBool
	mTime
	mVal
}
type enc48 struct {
	mStr
	mVal
}
type enc49 struct {
	mStmt
	mStr
	mVal
}
type enc50 struct {
	mInt
	mStr
	mVal
}
type enc51 struct {
	mStmt
	mInt
	mStr
	mVal
}
type enc52 struct {
	mBool
	mStr
	mVal
}
type enc53 struct {
	mStmt
	mBool
	mStr
	mVal
}
type enc54 struct {
	mInt
	mBool
	mStr
	mVal
}
type enc55 struct {
	mStmt
	mInt
	mBool
	mStr
	mVal
}
type enc56 struct {
	mTime
	mStr
	mVal
}
type enc57 struct {
	mStmt
	mTime
	mStr
	mVal
}
type enc58 struct {
	mInt
	mTime
	mStr
	mVal
}
type enc59 struct {
	mStmt
	mInt
	mTime
	mStr
	mVal
}
type enc60 struct {
	mBool
	mTime
	mStr
	mVal
}
type enc61 struct {
	mStmt
	mBool
	mTime
	mStr
	mVal
}
type enc62 struct {
	mInt
	mBool
	mTime
	mStr
	mVal
}
type enc63 struct {
	mStmt
	mInt
	mBool
	mTime
	mStr
	mVal
}

var encoders = []encoderType{
	{1, enc01{}, &enc01{}},
	{2, enc02{}, &enc02{}},
	{3, enc03{}, &enc03{}},
	{4, enc04{}, &enc04{}},
	{5, enc05{}, &enc05{}},
	{6, enc06{}, &enc06{}},
	{7, enc07{}, &enc07{}},
	{8, enc08{}, &enc08{}},
	{9, enc09{}, &enc09{}},
	{10, enc10{}, &enc10{}},
	{11, enc11{}, &enc11{}},
	{12, enc12{}, &enc12{}},
	{13, enc13{}, &enc13{}},
	{14, enc14{}, &enc14{}},
	{15, enc15{}, &enc15{}},
	{16, enc16{}, &enc16{}},
	{17, enc17{}, &enc17{}},
	{18, enc18{}, &enc18{}},
	{19, enc19{}, &enc19{}},
	{20, enc20{}, &enc20{}},
	{21, enc21{}, &enc21{}},
	{22, enc22{}, &enc22{}},
	{23, enc23{}, &enc23{}},
	{24, enc24{}, &enc24{}},
	{25, enc25{}, &enc25{}},
	{26, enc26{}, &enc26{}},
	{27, enc27{}, &enc27{}},
	{28, enc28{}, &enc28{}},
	{29, enc29{}, &enc29{}},
	{30, enc30{}, &enc30{}},
	{31, enc31{}, &enc31{}},
	{32, enc32{}, &enc32{}},
	{33, enc33{}, &enc33{}},
	{34, enc34{}, &enc34{}},
	{35, enc35{}, &enc35{}},
	{36, enc36{}, &enc36{}},
	{37, enc37{}, &enc37{}},
	{38, enc38{}, &enc38{}},
	{39, enc39{}, &enc39{}},
	{40, enc40{}, &enc40{}},
	{41, enc41{}, &enc41{}},
	{42, enc42{}, &enc42{}},
	{43, enc43{}, &enc43{}},
	{44, enc44{}, &enc44{}},
	{45, enc45{}, &enc45{}},
	{46, enc46{}, &enc46{}},
	{47, enc47{}, &enc47{}},
	{48, enc48{}, &enc48{}},
	{49, enc49{}, &enc49{}},
	{50, enc50{}, &enc50{}},
	{51, enc51{}, &enc51{}},
	{52, enc52{}, &enc52{}},
	{53, enc53{}, &enc53{}},
	{54, enc54{}, &enc54{}},
	{55, enc55{}, &enc55{}},
	{56, enc56{}, &enc56{}},
	{57, enc57{}, &enc57{}},
	{58, enc58{}, &enc58{}},
	{59, enc59{}, &enc59{}},
	{60, enc60{}, &enc60{}},
	{61, enc61{}, &enc61{}},
	{62, enc62{}, &enc62{}},
	{63, enc63{}, &enc63{}},
}

type penc01 struct{ pStmt }
type penc02 struct{ pInt }
type penc03 struct {
	pStmt
	pInt
}
type penc04 struct{ pBool }
type penc05 struct {
	pStmt
	pBool
}
type penc06 struct {
	pInt
	pBool
}
type penc07 struct {
	pStmt
	pInt
	pBool
}
type penc08 struct{ pTime }
type penc09 struct {
	pStmt
	pTime
}
type penc10 struct {
	pInt
	pTime
}
type penc11 struct {
	pStmt
	pInt
	pTime
}
type penc12 struct {
	pBool
	pTime
}
type penc13 struct {
	pStmt
	pBool
	pTime
}
type penc14 struct {
	pInt
	pBool
	pTime
}
type penc15 struct {
	pStmt
	pInt
	pBool
	pTime
}
type penc16 struct{ pStr }
type penc17 struct {
	pStmt
	pStr
}
type penc18 struct {
	pInt
	pStr
}
type penc19 struct {
	pStmt
	pInt
	pStr
}
type penc20 struct {
	pBool
	pStr
}
type penc21 struct {
	pStmt
	pBool
	pStr
}
type penc22 struct {
	pInt
	pBool
	pStr
}
type penc23 struct {
	pStmt
	pInt
	pBool
	pStr
}
type penc24 struct {
	pTime
	pStr
}
type penc25 struct {
	pStmt
	pTime
	pStr
}
type penc26 struct {
	pInt
	pTime
	pStr
}
type penc27 struct {
	pStmt
	pInt
	pTime
	pStr
}
type penc28 struct {
	pBool
	pTime
	pStr
}
type penc29 struct {
	pStmt
	pBool
	pTime
	pStr
}
type penc30 struct {
	pInt
	pBool
	pTime
	pStr
}
type penc31 struct {
	pStmt
	pInt
	pBool
	pTime
	pStr
}
type penc32 struct{ pVal }
type penc33 struct {
	pStmt
	pVal
}
type penc34 struct {
	pInt
	pVal
}
type penc35 struct {
	pStmt
	pInt
	pVal
}
type penc36 struct {
	pBool
	pVal
}
type penc37 struct {
	pStmt
	pBool
	pVal
}
type penc38 struct {
	pInt
	pBool
	pVal
}
type penc39 struct {
	pStmt
	pInt
	pBool
	pVal
}
type penc40 struct {
	pTime
	pVal
}
type penc41 struct {
	pStmt
	pTime
	pVal
}
type penc42 struct {
	pInt
	pTime
	pVal
}
type penc43 struct {
	pStmt
	pInt
	pTime
	pVal
}
type penc44 struct {
	pBool
	pTime
	pVal
}
type penc45 struct {
	pStmt
	pBool
	pTime
	pVal
}
type penc46 struct {
	pInt
	pBool
	pTime
	pVal
}
type penc47 struct {
	pStmt
	pInt
	pBool
	pTime
	pVal
}
type penc48 struct {
	pStr
	pVal
}
type penc49 struct {
	pStmt
	pStr
	pVal
}
type penc50 struct {
	pInt
	pStr
	pVal
}
type penc51 struct {
	pStmt
	pInt
	pStr
	pVal
}
type penc52 struct {
	pBool
	pStr
	pVal
}
type penc53 struct {
	pStmt
	pBool
	pStr
	pVal
}
type penc54 struct {
	pInt
	pBool
	pStr
	pVal
}
type penc55 struct {
	pStmt
	pInt
	pBool
	pStr
	pVal
}
type penc56 struct {
	pTime
	pStr
	pVal
}
type penc57 struct {
	pStmt
	pTime
	pStr
	pVal
}
type penc58 struct {
	pInt
	pTime
	pStr
	pVal
}
type penc59 struct {
	pStmt
	pInt
	pTime
	pStr
	pVal
}
type penc60 struct {
	pBool
	pTime
	pStr
	pVal
}
type penc61 struct {
	pStmt
	pBool
	pTime
	pStr
	pVal
}
type penc62 struct {
	pInt
	pBool
	pTime
	pStr
	pVal
}
type penc63 struct {
	pStmt
	pInt
	pBool
	pTime
	pStr
	pVal
}

var ptrEncoders = []encoderType{
	{1, nil, &penc01{}},
	{2, nil, &penc02{}},
	{3, nil, &penc03{}},
	{4, nil, &penc04{}},
	{5, nil, &penc05{}},
	{6, nil, &penc06{}},
	{7, nil, &penc07{}},
	{8, nil, &penc08{}},
	{9, nil, &penc09{}},
	{10, nil, &penc10{}},
	{11, nil, &penc11{}},
	{12, nil, &penc12{}},
	{13, nil, &penc13{}},
	{14, nil, &penc14{}},
	{15, nil, &penc15{}},
	{16, nil, &penc16{}},
	{17, nil, &penc17{}},
	{18, nil, &penc18{}},
	{19, nil, &penc19{}},
	{20, nil, &penc20{}},
	{21, nil, &penc21{}},
	{22, nil, &penc22{}},
	{23, nil, &penc23{}},
	{24, nil, &penc24{}},
	{25, nil, &penc25{}},
	{26, nil, &penc26{}},
	{27, nil, &penc27{}},
	{28, nil, &penc28{}},
	{29, nil, &penc29{}},
	{30, nil, &penc30{}},
	{31, nil, &penc31{}},
	{32, nil, &penc32{}},
	{33, nil, &penc33{}},
	{34, nil, &penc34{}},
	{35, nil, &penc35{}},
	{36, nil, &penc36{}},
	{37, nil, &penc37{}},
	{38, nil, &penc38{}},
	{39, nil, &penc39{}},
	{40, nil, &penc40{}},
	{41, nil, &penc41{}},
	{42, nil, &penc42{}},
	{43, nil, &penc43{}},
	{44, nil, &penc44{}},
	{45, nil, &penc45{}},
	{46, nil, &penc46{}},
	{47, nil, &penc47{}},
	{48, nil, &penc48{}},
	{49, nil, &penc49{}},
	{50, nil, &penc50{}},
	{51, nil, &penc51{}},
	{52, nil, &penc52{}},
	{53, nil, &penc53{}},
	{54, nil, &penc54{}},
	{55, nil, &penc55{}},
	{56, nil, &penc56{}},
	{57, nil, &penc57{}},
	{58, nil, &penc58{}},
	{59, nil, &penc59{}},
	{60, nil, &penc60{}},
	{61, nil, &penc61{}},
	{62, nil, &penc62{}},
	{63, nil, &penc63{}},
}
