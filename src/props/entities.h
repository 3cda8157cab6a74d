// Named character references of the HTML standard that stdex knows, too (from Python's html.entities.html5)
static const struct { const char* name; uint32_t chr[2]; } html_entities[] = {
	{"AElig",{0xc6,0x0}},{"Aacute",{0xc1,0x0}},{"Abreve",{0x102,0x0}},{"Acirc",{0xc2,0x0}},{"Acy",{0x410,0x0}},{"Agrave",{0xc0,0x0}},
	{"Alpha",{0x391,0x0}},{"Amacr",{0x100,0x0}},{"Aogon",{0x104,0x0}},{"Aring",{0xc5,0x0}},{"Atilde",{0xc3,0x0}},{"Auml",{0xc4,0x0}},
	{"Barwed",{0x2306,0x0}},{"Bcy",{0x411,0x0}},{"Beta",{0x392,0x0}},{"CHcy",{0x427,0x0}},{"Cacute",{0x106,0x0}},{"Cap",{0x22d2,0x0}},
	{"Ccaron",{0x10c,0x0}},{"Ccedil",{0xc7,0x0}},{"Ccirc",{0x108,0x0}},{"Cdot",{0x10a,0x0}},{"Chi",{0x3a7,0x0}},{"Cup",{0x22d3,0x0}},{"DJcy",{0x402,0x0}},
	{"DScy",{0x405,0x0}},{"DZcy",{0x40f,0x0}},{"Dagger",{0x2021,0x0}},{"Dcaron",{0x10e,0x0}},{"Dcy",{0x414,0x0}},{"Delta",{0x394,0x0}},{"Dot",{0xa8,0x0}},
	{"DotDot",{0x20dc,0x0}},{"Dstrok",{0x110,0x0}},{"ENG",{0x14a,0x0}},{"ETH",{0xd0,0x0}},{"Eacute",{0xc9,0x0}},{"Ecaron",{0x11a,0x0}},
	{"Ecirc",{0xca,0x0}},{"Ecy",{0x42d,0x0}},{"Edot",{0x116,0x0}},{"Egrave",{0xc8,0x0}},{"Emacr",{0x112,0x0}},{"Eogon",{0x118,0x0}},
	{"Epsilon",{0x395,0x0}},{"Eta",{0x397,0x0}},{"Euml",{0xcb,0x0}},{"Fcy",{0x424,0x0}},{"GJcy",{0x403,0x0}},{"Gamma",{0x393,0x0}},{"Gbreve",{0x11e,0x0}},
	{"Gcedil",{0x122,0x0}},{"Gcirc",{0x11c,0x0}},{"Gcy",{0x413,0x0}},{"Gdot",{0x120,0x0}},{"Gg",{0x22d9,0x0}},{"Gt",{0x226b,0x0}},{"HARDcy",{0x42a,0x0}},
	{"Hcirc",{0x124,0x0}},{"Hstrok",{0x126,0x0}},{"IEcy",{0x415,0x0}},{"IJlig",{0x132,0x0}},{"IOcy",{0x401,0x0}},{"Iacute",{0xcd,0x0}},
	{"Icirc",{0xce,0x0}},{"Icy",{0x418,0x0}},{"Idot",{0x130,0x0}},{"Igrave",{0xcc,0x0}},{"Imacr",{0x12a,0x0}},{"Iogon",{0x12e,0x0}},{"Iota",{0x399,0x0}},
	{"Itilde",{0x128,0x0}},{"Iukcy",{0x406,0x0}},{"Iuml",{0xcf,0x0}},{"Jcirc",{0x134,0x0}},{"Jcy",{0x419,0x0}},{"Jsercy",{0x408,0x0}},
	{"Jukcy",{0x404,0x0}},{"KHcy",{0x425,0x0}},{"KJcy",{0x40c,0x0}},{"Kappa",{0x39a,0x0}},{"Kcedil",{0x136,0x0}},{"Kcy",{0x41a,0x0}},{"LJcy",{0x409,0x0}},
	{"Lacute",{0x139,0x0}},{"Lambda",{0x39b,0x0}},{"Larr",{0x219e,0x0}},{"Lcaron",{0x13d,0x0}},{"Lcedil",{0x13b,0x0}},{"Lcy",{0x41b,0x0}},
	{"Ll",{0x22d8,0x0}},{"Lmidot",{0x13f,0x0}},{"Lstrok",{0x141,0x0}},{"Lt",{0x226a,0x0}},{"Mcy",{0x41c,0x0}},{"Mu",{0x39c,0x0}},{"NJcy",{0x40a,0x0}},
	{"Nacute",{0x143,0x0}},{"Ncaron",{0x147,0x0}},{"Ncedil",{0x145,0x0}},{"Ncy",{0x41d,0x0}},{"Ntilde",{0xd1,0x0}},{"Nu",{0x39d,0x0}},
	{"OElig",{0x152,0x0}},{"Oacute",{0xd3,0x0}},{"Ocirc",{0xd4,0x0}},{"Ocy",{0x41e,0x0}},{"Odblac",{0x150,0x0}},{"Ograve",{0xd2,0x0}},
	{"Omacr",{0x14c,0x0}},{"Omega",{0x3a9,0x0}},{"Omicron",{0x39f,0x0}},{"Oslash",{0xd8,0x0}},{"Otilde",{0xd5,0x0}},{"Ouml",{0xd6,0x0}},
	{"Pcy",{0x41f,0x0}},{"Phi",{0x3a6,0x0}},{"Pi",{0x3a0,0x0}},{"Prime",{0x2033,0x0}},{"Psi",{0x3a8,0x0}},{"Racute",{0x154,0x0}},{"Rarr",{0x21a0,0x0}},
	{"Rcaron",{0x158,0x0}},{"Rcedil",{0x156,0x0}},{"Rcy",{0x420,0x0}},{"Rho",{0x3a1,0x0}},{"SHCHcy",{0x429,0x0}},{"SHcy",{0x428,0x0}},
	{"SOFTcy",{0x42c,0x0}},{"Sacute",{0x15a,0x0}},{"Scaron",{0x160,0x0}},{"Scedil",{0x15e,0x0}},{"Scirc",{0x15c,0x0}},{"Scy",{0x421,0x0}},
	{"Sigma",{0x3a3,0x0}},{"Sub",{0x22d0,0x0}},{"Sup",{0x22d1,0x0}},{"THORN",{0xde,0x0}},{"TSHcy",{0x40b,0x0}},{"TScy",{0x426,0x0}},{"Tau",{0x3a4,0x0}},
	{"Tcaron",{0x164,0x0}},{"Tcedil",{0x162,0x0}},{"Tcy",{0x422,0x0}},{"Theta",{0x398,0x0}},{"Tstrok",{0x166,0x0}},{"Uacute",{0xda,0x0}},
	{"Ubrcy",{0x40e,0x0}},{"Ubreve",{0x16c,0x0}},{"Ucirc",{0xdb,0x0}},{"Ucy",{0x423,0x0}},{"Udblac",{0x170,0x0}},{"Ugrave",{0xd9,0x0}},
	{"Umacr",{0x16a,0x0}},{"Uogon",{0x172,0x0}},{"Upsilon",{0x3a5,0x0}},{"Uring",{0x16e,0x0}},{"Utilde",{0x168,0x0}},{"Uuml",{0xdc,0x0}},
	{"Vcy",{0x412,0x0}},{"Vdash",{0x22a9,0x0}},{"Verbar",{0x2016,0x0}},{"Vvdash",{0x22aa,0x0}},{"Wcirc",{0x174,0x0}},{"Xi",{0x39e,0x0}},
	{"YAcy",{0x42f,0x0}},{"YIcy",{0x407,0x0}},{"YUcy",{0x42e,0x0}},{"Yacute",{0xdd,0x0}},{"Ycirc",{0x176,0x0}},{"Ycy",{0x42b,0x0}},{"Yuml",{0x178,0x0}},
	{"ZHcy",{0x416,0x0}},{"Zacute",{0x179,0x0}},{"Zcaron",{0x17d,0x0}},{"Zcy",{0x417,0x0}},{"Zdot",{0x17b,0x0}},{"Zeta",{0x396,0x0}},
	{"aacute",{0xe1,0x0}},{"abreve",{0x103,0x0}},{"acirc",{0xe2,0x0}},{"acute",{0xb4,0x0}},{"acy",{0x430,0x0}},{"aelig",{0xe6,0x0}},{"agrave",{0xe0,0x0}},
	{"alefsym",{0x2135,0x0}},{"aleph",{0x2135,0x0}},{"alpha",{0x3b1,0x0}},{"amacr",{0x101,0x0}},{"amp",{0x26,0x0}},{"and",{0x2227,0x0}},
	{"ang",{0x2220,0x0}},{"angmsd",{0x2221,0x0}},{"angsph",{0x2222,0x0}},{"aogon",{0x105,0x0}},{"ap",{0x2248,0x0}},{"ape",{0x224a,0x0}},
	{"apos",{0x27,0x0}},{"aring",{0xe5,0x0}},{"ast",{0x2a,0x0}},{"asymp",{0x2248,0x0}},{"atilde",{0xe3,0x0}},{"auml",{0xe4,0x0}},{"bcong",{0x224c,0x0}},
	{"bcy",{0x431,0x0}},{"bdquo",{0x201e,0x0}},{"becaus",{0x2235,0x0}},{"bernou",{0x212c,0x0}},{"beta",{0x3b2,0x0}},{"beth",{0x2136,0x0}},
	{"blank",{0x2423,0x0}},{"blk12",{0x2592,0x0}},{"blk14",{0x2591,0x0}},{"blk34",{0x2593,0x0}},{"block",{0x2588,0x0}},{"bottom",{0x22a5,0x0}},
	{"bowtie",{0x22c8,0x0}},{"boxDL",{0x2557,0x0}},{"boxDR",{0x2554,0x0}},{"boxDl",{0x2556,0x0}},{"boxDr",{0x2553,0x0}},{"boxH",{0x2550,0x0}},
	{"boxHD",{0x2566,0x0}},{"boxHU",{0x2569,0x0}},{"boxHd",{0x2564,0x0}},{"boxHu",{0x2567,0x0}},{"boxUL",{0x255d,0x0}},{"boxUR",{0x255a,0x0}},
	{"boxUl",{0x255c,0x0}},{"boxUr",{0x2559,0x0}},{"boxV",{0x2551,0x0}},{"boxVH",{0x256c,0x0}},{"boxVL",{0x2563,0x0}},{"boxVR",{0x2560,0x0}},
	{"boxVh",{0x256b,0x0}},{"boxVl",{0x2562,0x0}},{"boxVr",{0x255f,0x0}},{"boxdL",{0x2555,0x0}},{"boxdR",{0x2552,0x0}},{"boxdl",{0x2510,0x0}},
	{"boxdr",{0x250c,0x0}},{"boxh",{0x2500,0x0}},{"boxhD",{0x2565,0x0}},{"boxhU",{0x2568,0x0}},{"boxhd",{0x252c,0x0}},{"boxhu",{0x2534,0x0}},
	{"boxuL",{0x255b,0x0}},{"boxuR",{0x2558,0x0}},{"boxul",{0x2518,0x0}},{"boxur",{0x2514,0x0}},{"boxv",{0x2502,0x0}},{"boxvH",{0x256a,0x0}},
	{"boxvL",{0x2561,0x0}},{"boxvR",{0x255e,0x0}},{"boxvh",{0x253c,0x0}},{"boxvl",{0x2524,0x0}},{"boxvr",{0x251c,0x0}},{"bprime",{0x2035,0x0}},
	{"breve",{0x2d8,0x0}},{"brvbar",{0xa6,0x0}},{"bsim",{0x223d,0x0}},{"bsime",{0x22cd,0x0}},{"bsol",{0x5c,0x0}},{"bull",{0x2022,0x0}},
	{"bump",{0x224e,0x0}},{"bumpe",{0x224f,0x0}},{"cacute",{0x107,0x0}},{"cap",{0x2229,0x0}},{"caret",{0x2041,0x0}},{"caron",{0x2c7,0x0}},
	{"ccaron",{0x10d,0x0}},{"ccedil",{0xe7,0x0}},{"ccirc",{0x109,0x0}},{"cdot",{0x10b,0x0}},{"cedil",{0xb8,0x0}},{"cent",{0xa2,0x0}},{"chcy",{0x447,0x0}},
	{"check",{0x2713,0x0}},{"chi",{0x3c7,0x0}},{"cir",{0x25cb,0x0}},{"circ",{0x2c6,0x0}},{"cire",{0x2257,0x0}},{"clubs",{0x2663,0x0}},
	{"colon",{0x3a,0x0}},{"colone",{0x2254,0x0}},{"comma",{0x2c,0x0}},{"commat",{0x40,0x0}},{"comp",{0x2201,0x0}},{"compfn",{0x2218,0x0}},
	{"cong",{0x2245,0x0}},{"conint",{0x222e,0x0}},{"coprod",{0x2210,0x0}},{"copy",{0xa9,0x0}},{"copysr",{0x2117,0x0}},{"crarr",{0x21b5,0x0}},
	{"cross",{0x2717,0x0}},{"cuepr",{0x22de,0x0}},{"cuesc",{0x22df,0x0}},{"cularr",{0x21b6,0x0}},{"cup",{0x222a,0x0}},{"curarr",{0x21b7,0x0}},
	{"curren",{0xa4,0x0}},{"cuvee",{0x22ce,0x0}},{"cuwed",{0x22cf,0x0}},{"dArr",{0x21d3,0x0}},{"dagger",{0x2020,0x0}},{"daleth",{0x2138,0x0}},
	{"darr",{0x2193,0x0}},{"dash",{0x2010,0x0}},{"dashv",{0x22a3,0x0}},{"dblac",{0x2dd,0x0}},{"dcaron",{0x10f,0x0}},{"dcy",{0x434,0x0}},
	{"deg",{0xb0,0x0}},{"delta",{0x3b4,0x0}},{"dharl",{0x21c3,0x0}},{"dharr",{0x21c2,0x0}},{"diam",{0x22c4,0x0}},{"diams",{0x2666,0x0}},
	{"die",{0xa8,0x0}},{"divide",{0xf7,0x0}},{"divonx",{0x22c7,0x0}},{"djcy",{0x452,0x0}},{"dlcorn",{0x231e,0x0}},{"dlcrop",{0x230d,0x0}},
	{"dollar",{0x24,0x0}},{"dot",{0x2d9,0x0}},{"drcorn",{0x231f,0x0}},{"drcrop",{0x230c,0x0}},{"dscy",{0x455,0x0}},{"dstrok",{0x111,0x0}},
	{"dtri",{0x25bf,0x0}},{"dtrif",{0x25be,0x0}},{"dzcy",{0x45f,0x0}},{"eDot",{0x2251,0x0}},{"eacute",{0xe9,0x0}},{"ecaron",{0x11b,0x0}},
	{"ecir",{0x2256,0x0}},{"ecirc",{0xea,0x0}},{"ecolon",{0x2255,0x0}},{"ecy",{0x44d,0x0}},{"edot",{0x117,0x0}},{"efDot",{0x2252,0x0}},
	{"egrave",{0xe8,0x0}},{"ell",{0x2113,0x0}},{"emacr",{0x113,0x0}},{"empty",{0x2205,0x0}},{"emsp",{0x2003,0x0}},{"emsp13",{0x2004,0x0}},
	{"emsp14",{0x2005,0x0}},{"eng",{0x14b,0x0}},{"ensp",{0x2002,0x0}},{"eogon",{0x119,0x0}},{"epsi",{0x3b5,0x0}},{"epsilon",{0x3b5,0x0}},
	{"equals",{0x3d,0x0}},{"equiv",{0x2261,0x0}},{"erDot",{0x2253,0x0}},{"esdot",{0x2250,0x0}},{"eta",{0x3b7,0x0}},{"eth",{0xf0,0x0}},{"euml",{0xeb,0x0}},
	{"euro",{0x20ac,0x0}},{"excl",{0x21,0x0}},{"exist",{0x2203,0x0}},{"fcy",{0x444,0x0}},{"female",{0x2640,0x0}},{"ffilig",{0xfb03,0x0}},
	{"fflig",{0xfb00,0x0}},{"ffllig",{0xfb04,0x0}},{"filig",{0xfb01,0x0}},{"flat",{0x266d,0x0}},{"fllig",{0xfb02,0x0}},{"fnof",{0x192,0x0}},
	{"forall",{0x2200,0x0}},{"fork",{0x22d4,0x0}},{"frac12",{0xbd,0x0}},{"frac13",{0x2153,0x0}},{"frac14",{0xbc,0x0}},{"frac15",{0x2155,0x0}},
	{"frac16",{0x2159,0x0}},{"frac18",{0x215b,0x0}},{"frac23",{0x2154,0x0}},{"frac25",{0x2156,0x0}},{"frac34",{0xbe,0x0}},{"frac35",{0x2157,0x0}},
	{"frac38",{0x215c,0x0}},{"frac45",{0x2158,0x0}},{"frac56",{0x215a,0x0}},{"frac58",{0x215d,0x0}},{"frac78",{0x215e,0x0}},{"frasl",{0x2044,0x0}},
	{"frown",{0x2322,0x0}},{"gE",{0x2267,0x0}},{"gacute",{0x1f5,0x0}},{"gamma",{0x3b3,0x0}},{"gbreve",{0x11f,0x0}},{"gcirc",{0x11d,0x0}},
	{"gcy",{0x433,0x0}},{"gdot",{0x121,0x0}},{"ge",{0x2265,0x0}},{"gel",{0x22db,0x0}},{"gimel",{0x2137,0x0}},{"gjcy",{0x453,0x0}},{"gl",{0x2277,0x0}},
	{"gnE",{0x2269,0x0}},{"gnsim",{0x22e7,0x0}},{"grave",{0x60,0x0}},{"gsim",{0x2273,0x0}},{"gt",{0x3e,0x0}},{"hArr",{0x21d4,0x0}},
	{"hairsp",{0x200a,0x0}},{"half",{0xbd,0x0}},{"hamilt",{0x210b,0x0}},{"hardcy",{0x44a,0x0}},{"harr",{0x2194,0x0}},{"harrw",{0x21ad,0x0}},
	{"hcirc",{0x125,0x0}},{"hearts",{0x2665,0x0}},{"hellip",{0x2026,0x0}},{"horbar",{0x2015,0x0}},{"hstrok",{0x127,0x0}},{"hybull",{0x2043,0x0}},
	{"iacute",{0xed,0x0}},{"icirc",{0xee,0x0}},{"icy",{0x438,0x0}},{"iecy",{0x435,0x0}},{"iexcl",{0xa1,0x0}},{"iff",{0x21d4,0x0}},{"igrave",{0xec,0x0}},
	{"ijlig",{0x133,0x0}},{"imacr",{0x12b,0x0}},{"image",{0x2111,0x0}},{"incare",{0x2105,0x0}},{"infin",{0x221e,0x0}},{"inodot",{0x131,0x0}},
	{"int",{0x222b,0x0}},{"intcal",{0x22ba,0x0}},{"iocy",{0x451,0x0}},{"iogon",{0x12f,0x0}},{"iota",{0x3b9,0x0}},{"iquest",{0xbf,0x0}},
	{"isin",{0x2208,0x0}},{"itilde",{0x129,0x0}},{"iukcy",{0x456,0x0}},{"iuml",{0xef,0x0}},{"jcirc",{0x135,0x0}},{"jcy",{0x439,0x0}},
	{"jsercy",{0x458,0x0}},{"jukcy",{0x454,0x0}},{"kappa",{0x3ba,0x0}},{"kappav",{0x3f0,0x0}},{"kcedil",{0x137,0x0}},{"kcy",{0x43a,0x0}},
	{"kgreen",{0x138,0x0}},{"khcy",{0x445,0x0}},{"kjcy",{0x45c,0x0}},{"lAarr",{0x21da,0x0}},{"lArr",{0x21d0,0x0}},{"lE",{0x2266,0x0}},
	{"lacute",{0x13a,0x0}},{"lagran",{0x2112,0x0}},{"lambda",{0x3bb,0x0}},{"laquo",{0xab,0x0}},{"larr",{0x2190,0x0}},{"larrhk",{0x21a9,0x0}},
	{"larrlp",{0x21ab,0x0}},{"larrtl",{0x21a2,0x0}},{"lcaron",{0x13e,0x0}},{"lcedil",{0x13c,0x0}},{"lceil",{0x2308,0x0}},{"lcub",{0x7b,0x0}},
	{"lcy",{0x43b,0x0}},{"ldquo",{0x201c,0x0}},{"ldquor",{0x201e,0x0}},{"le",{0x2264,0x0}},{"leg",{0x22da,0x0}},{"lfloor",{0x230a,0x0}},
	{"lg",{0x2276,0x0}},{"lhard",{0x21bd,0x0}},{"lharu",{0x21bc,0x0}},{"lhblk",{0x2584,0x0}},{"ljcy",{0x459,0x0}},{"lmidot",{0x140,0x0}},
	{"lnE",{0x2268,0x0}},{"lnsim",{0x22e6,0x0}},{"lowast",{0x2217,0x0}},{"lowbar",{0x5f,0x0}},{"loz",{0x25ca,0x0}},{"lpar",{0x28,0x0}},
	{"lrm",{0x200e,0x0}},{"lsaquo",{0x2039,0x0}},{"lsh",{0x21b0,0x0}},{"lsim",{0x2272,0x0}},{"lsqb",{0x5b,0x0}},{"lsquo",{0x2018,0x0}},
	{"lsquor",{0x201a,0x0}},{"lstrok",{0x142,0x0}},{"lt",{0x3c,0x0}},{"lthree",{0x22cb,0x0}},{"ltimes",{0x22c9,0x0}},{"ltri",{0x25c3,0x0}},
	{"ltrie",{0x22b4,0x0}},{"ltrif",{0x25c2,0x0}},{"macr",{0xaf,0x0}},{"male",{0x2642,0x0}},{"malt",{0x2720,0x0}},{"map",{0x21a6,0x0}},
	{"marker",{0x25ae,0x0}},{"mcy",{0x43c,0x0}},{"mdash",{0x2014,0x0}},{"micro",{0xb5,0x0}},{"mid",{0x2223,0x0}},{"middot",{0xb7,0x0}},
	{"minus",{0x2212,0x0}},{"minusb",{0x229f,0x0}},{"mldr",{0x2026,0x0}},{"mnplus",{0x2213,0x0}},{"models",{0x22a7,0x0}},{"mu",{0x3bc,0x0}},
	{"mumap",{0x22b8,0x0}},{"nVDash",{0x22af,0x0}},{"nVdash",{0x22ae,0x0}},{"nabla",{0x2207,0x0}},{"nacute",{0x144,0x0}},{"nap",{0x2249,0x0}},
	{"napos",{0x149,0x0}},{"natur",{0x266e,0x0}},{"nbsp",{0xa0,0x0}},{"ncaron",{0x148,0x0}},{"ncedil",{0x146,0x0}},{"ncong",{0x2247,0x0}},
	{"ncy",{0x43d,0x0}},{"ndash",{0x2013,0x0}},{"ne",{0x2260,0x0}},{"nearr",{0x2197,0x0}},{"nequiv",{0x2262,0x0}},{"nexist",{0x2204,0x0}},
	{"nge",{0x2271,0x0}},{"ngt",{0x226f,0x0}},{"nhArr",{0x21ce,0x0}},{"nharr",{0x21ae,0x0}},{"ni",{0x220b,0x0}},{"njcy",{0x45a,0x0}},
	{"nlArr",{0x21cd,0x0}},{"nlarr",{0x219a,0x0}},{"nldr",{0x2025,0x0}},{"nle",{0x2270,0x0}},{"nlt",{0x226e,0x0}},{"nltri",{0x22ea,0x0}},
	{"nltrie",{0x22ec,0x0}},{"nmid",{0x2224,0x0}},{"not",{0xac,0x0}},{"notin",{0x2209,0x0}},{"npar",{0x2226,0x0}},{"npr",{0x2280,0x0}},
	{"nrArr",{0x21cf,0x0}},{"nrarr",{0x219b,0x0}},{"nrtri",{0x22eb,0x0}},{"nrtrie",{0x22ed,0x0}},{"nsc",{0x2281,0x0}},{"nsim",{0x2241,0x0}},
	{"nsime",{0x2244,0x0}},{"nspar",{0x2226,0x0}},{"nsub",{0x2284,0x0}},{"nsube",{0x2288,0x0}},{"nsup",{0x2285,0x0}},{"nsupe",{0x2289,0x0}},
	{"ntilde",{0xf1,0x0}},{"nu",{0x3bd,0x0}},{"num",{0x23,0x0}},{"numero",{0x2116,0x0}},{"numsp",{0x2007,0x0}},{"nvDash",{0x22ad,0x0}},
	{"nvdash",{0x22ac,0x0}},{"nwarr",{0x2196,0x0}},{"oS",{0x24c8,0x0}},{"oacute",{0xf3,0x0}},{"oast",{0x229b,0x0}},{"ocir",{0x229a,0x0}},
	{"ocirc",{0xf4,0x0}},{"ocy",{0x43e,0x0}},{"odash",{0x229d,0x0}},{"odblac",{0x151,0x0}},{"odot",{0x2299,0x0}},{"oelig",{0x153,0x0}},
	{"ogon",{0x2db,0x0}},{"ograve",{0xf2,0x0}},{"olarr",{0x21ba,0x0}},{"oline",{0x203e,0x0}},{"omacr",{0x14d,0x0}},{"omega",{0x3c9,0x0}},
	{"omicron",{0x3bf,0x0}},{"ominus",{0x2296,0x0}},{"oplus",{0x2295,0x0}},{"or",{0x2228,0x0}},{"orarr",{0x21bb,0x0}},{"order",{0x2134,0x0}},
	{"ordf",{0xaa,0x0}},{"ordm",{0xba,0x0}},{"oslash",{0xf8,0x0}},{"osol",{0x2298,0x0}},{"otilde",{0xf5,0x0}},{"otimes",{0x2297,0x0}},{"ouml",{0xf6,0x0}},
	{"par",{0x2225,0x0}},{"para",{0xb6,0x0}},{"part",{0x2202,0x0}},{"pcy",{0x43f,0x0}},{"percnt",{0x25,0x0}},{"period",{0x2e,0x0}},
	{"permil",{0x2030,0x0}},{"perp",{0x22a5,0x0}},{"phi",{0x3c6,0x0}},{"phiv",{0x3d5,0x0}},{"phmmat",{0x2133,0x0}},{"phone",{0x260e,0x0}},
	{"pi",{0x3c0,0x0}},{"piv",{0x3d6,0x0}},{"planck",{0x210f,0x0}},{"plus",{0x2b,0x0}},{"plusb",{0x229e,0x0}},{"plusdo",{0x2214,0x0}},
	{"plusmn",{0xb1,0x0}},{"pound",{0xa3,0x0}},{"pr",{0x227a,0x0}},{"prime",{0x2032,0x0}},{"prnsim",{0x22e8,0x0}},{"prod",{0x220f,0x0}},
	{"prop",{0x221d,0x0}},{"prsim",{0x227e,0x0}},{"psi",{0x3c8,0x0}},{"puncsp",{0x2008,0x0}},{"quest",{0x3f,0x0}},{"quot",{0x22,0x0}},
	{"rAarr",{0x21db,0x0}},{"rArr",{0x21d2,0x0}},{"racute",{0x155,0x0}},{"radic",{0x221a,0x0}},{"raquo",{0xbb,0x0}},{"rarr",{0x2192,0x0}},
	{"rarrhk",{0x21aa,0x0}},{"rarrlp",{0x21ac,0x0}},{"rarrtl",{0x21a3,0x0}},{"rarrw",{0x219d,0x0}},{"rcaron",{0x159,0x0}},{"rcedil",{0x157,0x0}},
	{"rceil",{0x2309,0x0}},{"rcub",{0x7d,0x0}},{"rcy",{0x440,0x0}},{"rdquo",{0x201d,0x0}},{"real",{0x211c,0x0}},{"rect",{0x25ad,0x0}},{"reg",{0xae,0x0}},
	{"rfloor",{0x230b,0x0}},{"rhard",{0x21c1,0x0}},{"rharu",{0x21c0,0x0}},{"rho",{0x3c1,0x0}},{"rhov",{0x3f1,0x0}},{"ring",{0x2da,0x0}},
	{"rlm",{0x200f,0x0}},{"rpar",{0x29,0x0}},{"rsaquo",{0x203a,0x0}},{"rsh",{0x21b1,0x0}},{"rsqb",{0x5d,0x0}},{"rsquo",{0x2019,0x0}},
	{"rthree",{0x22cc,0x0}},{"rtimes",{0x22ca,0x0}},{"rtri",{0x25b9,0x0}},{"rtrie",{0x22b5,0x0}},{"rtrif",{0x25b8,0x0}},{"rx",{0x211e,0x0}},
	{"sacute",{0x15b,0x0}},{"sbquo",{0x201a,0x0}},{"sc",{0x227b,0x0}},{"scaron",{0x161,0x0}},{"sccue",{0x227d,0x0}},{"scedil",{0x15f,0x0}},
	{"scirc",{0x15d,0x0}},{"scnsim",{0x22e9,0x0}},{"scsim",{0x227f,0x0}},{"scy",{0x441,0x0}},{"sdot",{0x22c5,0x0}},{"sdotb",{0x22a1,0x0}},
	{"sect",{0xa7,0x0}},{"semi",{0x3b,0x0}},{"setmn",{0x2216,0x0}},{"sext",{0x2736,0x0}},{"sfrown",{0x2322,0x0}},{"sharp",{0x266f,0x0}},
	{"shchcy",{0x449,0x0}},{"shcy",{0x448,0x0}},{"shy",{0xad,0x0}},{"sigma",{0x3c3,0x0}},{"sigmaf",{0x3c2,0x0}},{"sigmav",{0x3c2,0x0}},
	{"sim",{0x223c,0x0}},{"sime",{0x2243,0x0}},{"smile",{0x2323,0x0}},{"softcy",{0x44c,0x0}},{"sol",{0x2f,0x0}},{"spades",{0x2660,0x0}},
	{"spar",{0x2225,0x0}},{"sqcap",{0x2293,0x0}},{"sqcup",{0x2294,0x0}},{"sqsub",{0x228f,0x0}},{"sqsube",{0x2291,0x0}},{"sqsup",{0x2290,0x0}},
	{"sqsupe",{0x2292,0x0}},{"squ",{0x25a1,0x0}},{"square",{0x25a1,0x0}},{"squf",{0x25aa,0x0}},{"ssetmn",{0x2216,0x0}},{"ssmile",{0x2323,0x0}},
	{"sstarf",{0x22c6,0x0}},{"star",{0x2606,0x0}},{"starf",{0x2605,0x0}},{"sub",{0x2282,0x0}},{"sube",{0x2286,0x0}},{"subne",{0x228a,0x0}},
	{"sum",{0x2211,0x0}},{"sung",{0x266a,0x0}},{"sup",{0x2283,0x0}},{"sup1",{0xb9,0x0}},{"sup2",{0xb2,0x0}},{"sup3",{0xb3,0x0}},{"supe",{0x2287,0x0}},
	{"supne",{0x228b,0x0}},{"szlig",{0xdf,0x0}},{"target",{0x2316,0x0}},{"tau",{0x3c4,0x0}},{"tcaron",{0x165,0x0}},{"tcedil",{0x163,0x0}},
	{"tcy",{0x442,0x0}},{"tdot",{0x20db,0x0}},{"telrec",{0x2315,0x0}},{"there4",{0x2234,0x0}},{"theta",{0x3b8,0x0}},{"thetasym",{0x3d1,0x0}},
	{"thetav",{0x3d1,0x0}},{"thinsp",{0x2009,0x0}},{"thkap",{0x2248,0x0}},{"thksim",{0x223c,0x0}},{"thorn",{0xfe,0x0}},{"tilde",{0x2dc,0x0}},
	{"times",{0xd7,0x0}},{"timesb",{0x22a0,0x0}},{"top",{0x22a4,0x0}},{"tprime",{0x2034,0x0}},{"trade",{0x2122,0x0}},{"trie",{0x225c,0x0}},
	{"tscy",{0x446,0x0}},{"tshcy",{0x45b,0x0}},{"tstrok",{0x167,0x0}},{"twixt",{0x226c,0x0}},{"uArr",{0x21d1,0x0}},{"uacute",{0xfa,0x0}},
	{"uarr",{0x2191,0x0}},{"ubrcy",{0x45e,0x0}},{"ubreve",{0x16d,0x0}},{"ucirc",{0xfb,0x0}},{"ucy",{0x443,0x0}},{"udblac",{0x171,0x0}},
	{"ugrave",{0xf9,0x0}},{"uharl",{0x21bf,0x0}},{"uharr",{0x21be,0x0}},{"uhblk",{0x2580,0x0}},{"ulcorn",{0x231c,0x0}},{"ulcrop",{0x230f,0x0}},
	{"umacr",{0x16b,0x0}},{"uml",{0xa8,0x0}},{"uogon",{0x173,0x0}},{"uplus",{0x228e,0x0}},{"upsi",{0x3c5,0x0}},{"upsih",{0x3d2,0x0}},
	{"upsilon",{0x3c5,0x0}},{"urcorn",{0x231d,0x0}},{"urcrop",{0x230e,0x0}},{"uring",{0x16f,0x0}},{"utilde",{0x169,0x0}},{"utri",{0x25b5,0x0}},
	{"utrif",{0x25b4,0x0}},{"uuml",{0xfc,0x0}},{"vArr",{0x21d5,0x0}},{"vDash",{0x22a8,0x0}},{"varr",{0x2195,0x0}},{"vcy",{0x432,0x0}},
	{"vdash",{0x22a2,0x0}},{"veebar",{0x22bb,0x0}},{"vellip",{0x22ee,0x0}},{"verbar",{0x7c,0x0}},{"vltri",{0x22b2,0x0}},{"vprop",{0x221d,0x0}},
	{"vrtri",{0x22b3,0x0}},{"wcirc",{0x175,0x0}},{"wedgeq",{0x2259,0x0}},{"weierp",{0x2118,0x0}},{"wreath",{0x2240,0x0}},{"xdtri",{0x25bd,0x0}},
	{"xi",{0x3be,0x0}},{"xutri",{0x25b3,0x0}},{"yacute",{0xfd,0x0}},{"yacy",{0x44f,0x0}},{"ycirc",{0x177,0x0}},{"ycy",{0x44b,0x0}},{"yen",{0xa5,0x0}},
	{"yicy",{0x457,0x0}},{"yucy",{0x44e,0x0}},{"yuml",{0xff,0x0}},{"zacute",{0x17a,0x0}},{"zcaron",{0x17e,0x0}},{"zcy",{0x437,0x0}},{"zdot",{0x17c,0x0}},
	{"zeta",{0x3b6,0x0}},{"zhcy",{0x436,0x0}},{"zwj",{0x200d,0x0}},{"zwnj",{0x200c,0x0}},
};
