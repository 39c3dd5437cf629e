---- MODULE KAT ----
\* Known-answer tests of the specification itself (tools/genkat.py)
EXTENDS Crypto
MSG0 == <<>>
MSG1 == <<3>>
MSG2 == <<3,10,17>>
MSG3 == <<3,10,17,24,31,38,45,52,59,66,73,80,87,94,101,108,115,122,129,136,143,150,157,164,171,178,185,192,199,206,213,220,227,234,241,248,255,6,13,20,27,34,41,48,55,62,69,76,83,90,97,104,111,118,125>>
MSG4 == <<3,10,17,24,31,38,45,52,59,66,73,80,87,94,101,108,115,122,129,136,143,150,157,164,171,178,185,192,199,206,213,220,227,234,241,248,255,6,13,20,27,34,41,48,55,62,69,76,83,90,97,104,111,118,125,132>>
MSG5 == <<3,10,17,24,31,38,45,52,59,66,73,80,87,94,101,108,115,122,129,136,143,150,157,164,171,178,185,192,199,206,213,220,227,234,241,248,255,6,13,20,27,34,41,48,55,62,69,76,83,90,97,104,111,118,125,132,139,146,153,160,167,174,181>>
MSG6 == <<3,10,17,24,31,38,45,52,59,66,73,80,87,94,101,108,115,122,129,136,143,150,157,164,171,178,185,192,199,206,213,220,227,234,241,248,255,6,13,20,27,34,41,48,55,62,69,76,83,90,97,104,111,118,125,132,139,146,153,160,167,174,181,188>>
MSG7 == <<3,10,17,24,31,38,45,52,59,66,73,80,87,94,101,108,115,122,129,136,143,150,157,164,171,178,185,192,199,206,213,220,227,234,241,248,255,6,13,20,27,34,41,48,55,62,69,76,83,90,97,104,111,118,125,132,139,146,153,160,167,174,181,188,195>>
MSG8 == <<3,10,17,24,31,38,45,52,59,66,73,80,87,94,101,108,115,122,129,136,143,150,157,164,171,178,185,192,199,206,213,220,227,234,241,248,255,6,13,20,27,34,41,48,55,62,69,76,83,90,97,104,111,118,125,132,139,146,153,160,167,174,181,188,195,202,209,216,223,230,237,244,251,2,9,16,23,30,37,44,51,58,65,72,79,86,93,100,107,114,121,128,135,142,149,156,163,170,177,184,191,198,205,212,219,226,233,240,247,254,5>>
MSG9 == <<3,10,17,24,31,38,45,52,59,66,73,80,87,94,101,108,115,122,129,136,143,150,157,164,171,178,185,192,199,206,213,220,227,234,241,248,255,6,13,20,27,34,41,48,55,62,69,76,83,90,97,104,111,118,125,132,139,146,153,160,167,174,181,188,195,202,209,216,223,230,237,244,251,2,9,16,23,30,37,44,51,58,65,72,79,86,93,100,107,114,121,128,135,142,149,156,163,170,177,184,191,198,205,212,219,226,233,240,247,254,5,12>>
MSG10 == <<3,10,17,24,31,38,45,52,59,66,73,80,87,94,101,108,115,122,129,136,143,150,157,164,171,178,185,192,199,206,213,220,227,234,241,248,255,6,13,20,27,34,41,48,55,62,69,76,83,90,97,104,111,118,125,132,139,146,153,160,167,174,181,188,195,202,209,216,223,230,237,244,251,2,9,16,23,30,37,44,51,58,65,72,79,86,93,100,107,114,121,128,135,142,149,156,163,170,177,184,191,198,205,212,219,226,233,240,247,254,5,12,19,26,33,40,47,54,61>>
MSG11 == <<3,10,17,24,31,38,45,52,59,66,73,80,87,94,101,108,115,122,129,136,143,150,157,164,171,178,185,192,199,206,213,220,227,234,241,248,255,6,13,20,27,34,41,48,55,62,69,76,83,90,97,104,111,118,125,132,139,146,153,160,167,174,181,188,195,202,209,216,223,230,237,244,251,2,9,16,23,30,37,44,51,58,65,72,79,86,93,100,107,114,121,128,135,142,149,156,163,170,177,184,191,198,205,212,219,226,233,240,247,254,5,12,19,26,33,40,47,54,61,68,75,82,89,96,103,110,117>>
MSG12 == <<3,10,17,24,31,38,45,52,59,66,73,80,87,94,101,108,115,122,129,136,143,150,157,164,171,178,185,192,199,206,213,220,227,234,241,248,255,6,13,20,27,34,41,48,55,62,69,76,83,90,97,104,111,118,125,132,139,146,153,160,167,174,181,188,195,202,209,216,223,230,237,244,251,2,9,16,23,30,37,44,51,58,65,72,79,86,93,100,107,114,121,128,135,142,149,156,163,170,177,184,191,198,205,212,219,226,233,240,247,254,5,12,19,26,33,40,47,54,61,68,75,82,89,96,103,110,117,124>>
MSG13 == <<3,10,17,24,31,38,45,52,59,66,73,80,87,94,101,108,115,122,129,136,143,150,157,164,171,178,185,192,199,206,213,220,227,234,241,248,255,6,13,20,27,34,41,48,55,62,69,76,83,90,97,104,111,118,125,132,139,146,153,160,167,174,181,188,195,202,209,216,223,230,237,244,251,2,9,16,23,30,37,44,51,58,65,72,79,86,93,100,107,114,121,128,135,142,149,156,163,170,177,184,191,198,205,212,219,226,233,240,247,254,5,12,19,26,33,40,47,54,61,68,75,82,89,96,103,110,117,124,131>>
MSG14 == <<3,10,17,24,31,38,45,52,59,66,73,80,87,94,101,108,115,122,129,136,143,150,157,164,171,178,185,192,199,206,213,220,227,234,241,248,255,6,13,20,27,34,41,48,55,62,69,76,83,90,97,104,111,118,125,132,139,146,153,160,167,174,181,188,195,202,209,216,223,230,237,244,251,2,9,16,23,30,37,44,51,58,65,72,79,86,93,100,107,114,121,128,135,142,149,156,163,170,177,184,191,198,205,212,219,226,233,240,247,254,5,12,19,26,33,40,47,54,61,68,75,82,89,96,103,110,117,124,131,138,145,152,159,166,173>>
MSG15 == <<3,10,17,24,31,38,45,52,59,66,73,80,87,94,101,108,115,122,129,136,143,150,157,164,171,178,185,192,199,206,213,220,227,234,241,248,255,6,13,20,27,34,41,48,55,62,69,76,83,90,97,104,111,118,125,132,139,146,153,160,167,174,181,188,195,202,209,216,223,230,237,244,251,2,9,16,23,30,37,44,51,58,65,72,79,86,93,100,107,114,121,128,135,142,149,156,163,170,177,184,191,198,205,212,219,226,233,240,247,254,5,12,19,26,33,40,47,54,61,68,75,82,89,96,103,110,117,124,131,138,145,152,159,166,173,180>>
MSG16 == <<3,10,17,24,31,38,45,52,59,66,73,80,87,94,101,108,115,122,129,136,143,150,157,164,171,178,185,192,199,206,213,220,227,234,241,248,255,6,13,20,27,34,41,48,55,62,69,76,83,90,97,104,111,118,125,132,139,146,153,160,167,174,181,188,195,202,209,216,223,230,237,244,251,2,9,16,23,30,37,44,51,58,65,72,79,86,93,100,107,114,121,128,135,142,149,156,163,170,177,184,191,198,205,212,219,226,233,240,247,254,5,12,19,26,33,40,47,54,61,68,75,82,89,96,103,110,117,124,131,138,145,152,159,166,173,180,187>>
MSG17 == <<3,10,17,24,31,38,45,52,59,66,73,80,87,94,101,108,115,122,129,136,143,150,157,164,171,178,185,192,199,206,213,220,227,234,241,248,255,6,13,20,27,34,41,48,55,62,69,76,83,90,97,104,111,118,125,132,139,146,153,160,167,174,181,188,195,202,209,216,223,230,237,244,251,2,9,16,23,30,37,44,51,58,65,72,79,86,93,100,107,114,121,128,135,142,149,156,163,170,177,184,191,198,205,212,219,226,233,240,247,254,5,12,19,26,33,40,47,54,61,68,75,82,89,96,103,110,117,124,131,138,145,152,159,166,173,180,187,194,201,208,215,222,229>>
MSG18 == <<3,10,17,24,31,38,45,52,59,66,73,80,87,94,101,108,115,122,129,136,143,150,157,164,171,178,185,192,199,206,213,220,227,234,241,248,255,6,13,20,27,34,41,48,55,62,69,76,83,90,97,104,111,118,125,132,139,146,153,160,167,174,181,188,195,202,209,216,223,230,237,244,251,2,9,16,23,30,37,44,51,58,65,72,79,86,93,100,107,114,121,128,135,142,149,156,163,170,177,184,191,198,205,212,219,226,233,240,247,254,5,12,19,26,33,40,47,54,61,68,75,82,89,96,103,110,117,124,131,138,145,152,159,166,173,180,187,194,201,208,215,222,229,236>>
MSG19 == <<3,10,17,24,31,38,45,52,59,66,73,80,87,94,101,108,115,122,129,136,143,150,157,164,171,178,185,192,199,206,213,220,227,234,241,248,255,6,13,20,27,34,41,48,55,62,69,76,83,90,97,104,111,118,125,132,139,146,153,160,167,174,181,188,195,202,209,216,223,230,237,244,251,2,9,16,23,30,37,44,51,58,65,72,79,86,93,100,107,114,121,128,135,142,149,156,163,170,177,184,191,198,205,212,219,226,233,240,247,254,5,12,19,26,33,40,47,54,61,68,75,82,89,96,103,110,117,124,131,138,145,152,159,166,173,180,187,194,201,208,215,222,229,236,243,250,1,8,15,22,29,36,43,50,57,64,71,78,85,92,99,106,113,120,127,134,141,148,155,162,169,176,183,190,197,204,211,218,225,232,239,246,253,4,11,18,25,32,39,46,53,60,67,74,81,88,95,102,109,116>>
MSG20 == <<3,10,17,24,31,38,45,52,59,66,73,80,87,94,101,108,115,122,129,136,143,150,157,164,171,178,185,192,199,206,213,220,227,234,241,248,255,6,13,20,27,34,41,48,55,62,69,76,83,90,97,104,111,118,125,132,139,146,153,160,167,174,181,188,195,202,209,216,223,230,237,244,251,2,9,16,23,30,37,44,51,58,65,72,79,86,93,100,107,114,121,128,135,142,149,156,163,170,177,184,191,198,205,212,219,226,233,240,247,254,5,12,19,26,33,40,47,54,61,68,75,82,89,96,103,110,117,124,131,138,145,152,159,166,173,180,187,194,201,208,215,222,229,236,243,250,1,8,15,22,29,36,43,50,57,64,71,78,85,92,99,106,113,120,127,134,141,148,155,162,169,176,183,190,197,204,211,218,225,232,239,246,253,4,11,18,25,32,39,46,53,60,67,74,81,88,95,102,109,116,123,130,137,144,151,158,165,172,179,186,193,200,207,214,221,228,235,242,249,0,7,14,21,28,35,42,49,56,63,70,77,84,91,98,105,112,119,126,133,140,147,154,161,168,175,182,189,196,203,210,217,224,231,238,245,252>>
ASSUME SHA1(MSG0) = <<218,57,163,238,94,107,75,13,50,85,191,239,149,96,24,144,175,216,7,9>>
ASSUME SHA224(MSG0) = <<209,74,2,140,42,58,43,201,71,97,2,187,40,130,52,196,21,162,176,31,130,142,166,42,197,179,228,47>>
ASSUME SHA256(MSG0) = <<227,176,196,66,152,252,28,20,154,251,244,200,153,111,185,36,39,174,65,228,100,155,147,76,164,149,153,27,120,82,184,85>>
ASSUME SHA384(MSG0) = <<56,176,96,167,81,172,150,56,76,217,50,126,177,177,227,106,33,253,183,17,20,190,7,67,76,12,199,191,99,246,225,218,39,78,222,191,231,111,101,251,213,26,210,241,72,152,185,91>>
ASSUME SHA512(MSG0) = <<207,131,225,53,126,239,184,189,241,84,40,80,214,109,128,7,214,32,228,5,11,87,21,220,131,244,169,33,211,108,233,206,71,208,209,60,93,133,242,176,255,131,24,210,135,126,236,47,99,185,49,189,71,65,122,129,165,56,50,122,249,39,218,62>>
ASSUME MD5(MSG0) = <<212,29,140,217,143,0,178,4,233,128,9,152,236,248,66,126>>
ASSUME SHA3(224,MSG0) = <<107,78,3,66,54,103,219,183,59,110,21,69,79,14,177,171,212,89,127,154,27,7,142,63,91,90,107,199>>
ASSUME SHA3(256,MSG0) = <<167,255,198,248,191,30,215,102,81,193,71,86,160,97,214,98,245,128,255,77,228,59,73,250,130,216,10,75,128,248,67,74>>
ASSUME SHA3(384,MSG0) = <<12,99,167,91,132,94,79,125,1,16,125,133,46,76,36,133,197,26,80,170,170,148,252,97,153,94,113,187,238,152,58,42,195,113,56,49,38,74,219,71,251,107,209,224,88,213,240,4>>
ASSUME SHA3(512,MSG0) = <<166,159,115,204,162,58,154,197,200,181,103,220,24,90,117,110,151,201,130,22,79,226,88,89,224,209,220,193,71,92,128,166,21,178,18,58,241,245,249,76,17,227,233,64,44,58,197,88,245,0,25,157,149,182,211,227,1,117,133,134,40,29,205,38>>
ASSUME BLAKE2B(1,<<>>,MSG0) = <<46>>
ASSUME BLAKE2B(32,<<>>,MSG0) = <<14,87,81,192,38,229,67,178,232,171,46,176,96,153,218,161,209,229,223,71,119,143,119,135,250,171,69,205,241,47,227,168>>
ASSUME BLAKE2B(64,<<>>,MSG0) = <<120,106,2,247,66,1,89,3,198,198,253,133,37,82,210,114,145,47,71,64,225,88,71,97,138,134,226,23,247,31,84,25,210,94,16,49,175,238,88,83,19,137,100,68,147,78,176,75,144,58,104,91,20,72,183,85,213,111,112,26,254,155,226,206>>
ASSUME BLAKE2B(20,<<107,107,107,107,107>>,MSG0) = <<51,240,68,16,182,106,91,42,67,17,40,137,117,236,180,90,77,154,200,128>>
ASSUME BLAKE2B(64,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63>>,MSG0) = <<16,235,182,119,0,177,134,142,251,68,23,152,122,207,70,144,174,157,151,47,183,165,144,194,240,40,113,121,154,170,71,134,181,233,150,232,240,244,235,152,31,194,20,176,5,244,45,47,244,35,52,153,57,22,83,223,122,239,203,193,63,197,21,104>>
ASSUME BLAKE2S(1,<<>>,MSG0) = <<161>>
ASSUME BLAKE2S(32,<<>>,MSG0) = <<105,33,122,48,121,144,128,148,225,17,33,208,66,53,74,124,31,85,182,72,44,161,165,30,27,37,13,253,30,208,238,249>>
ASSUME BLAKE2S(20,<<107,107,107,107,107>>,MSG0) = <<35,242,134,236,131,146,46,34,31,221,150,20,186,107,233,121,14,78,221,207>>
ASSUME BLAKE2S(32,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31>>,MSG0) = <<72,168,153,125,164,7,135,107,61,121,192,217,35,37,173,59,137,203,183,84,216,106,183,26,238,4,122,211,69,253,44,73>>
ASSUME SHA1(MSG1) = <<152,66,146,106,247,202,10,140,202,18,96,79,148,84,20,240,123,1,225,61>>
ASSUME SHA224(MSG1) = <<21,235,212,184,253,252,105,5,234,0,42,62,252,200,250,167,25,84,115,158,230,43,187,241,104,54,235,92>>
ASSUME SHA256(MSG1) = <<8,79,237,8,185,120,175,77,125,25,106,116,70,168,107,88,0,158,99,107,97,29,177,98,17,182,90,154,173,255,41,197>>
ASSUME SHA384(MSG1) = <<138,108,105,175,111,182,36,118,53,248,55,149,132,70,251,143,16,227,155,213,251,194,68,247,230,53,23,99,57,163,190,97,79,99,148,36,127,1,219,225,18,108,23,140,123,212,140,181>>
ASSUME SHA512(MSG1) = <<228,91,245,129,125,223,148,170,47,122,64,112,113,240,238,220,107,235,152,247,104,180,205,51,209,23,109,68,209,86,58,69,165,215,33,34,144,235,118,112,198,120,107,19,89,26,237,172,134,71,137,147,137,94,139,36,230,18,1,74,186,166,186,4>>
ASSUME MD5(MSG1) = <<134,102,104,53,6,170,205,144,11,189,90,116,172,78,223,104>>
ASSUME SHA3(224,MSG1) = <<183,64,163,180,70,146,7,114,161,12,175,105,115,110,183,18,215,218,179,179,128,231,193,162,222,241,155,122>>
ASSUME SHA3(256,MSG1) = <<227,237,86,189,8,109,137,88,72,58,18,115,79,160,174,127,92,139,177,96,239,144,146,198,126,130,237,155,25,228,199,178>>
ASSUME SHA3(384,MSG1) = <<128,254,10,164,136,145,147,221,43,153,36,227,77,33,112,131,90,7,49,222,62,41,158,112,116,140,57,6,244,240,235,163,93,83,30,97,228,235,49,139,248,189,230,254,61,233,67,108>>
ASSUME SHA3(512,MSG1) = <<166,63,151,18,170,220,235,15,225,111,24,129,113,154,128,34,148,131,15,161,247,160,229,143,242,106,69,168,20,48,153,97,197,0,127,67,244,226,36,168,45,63,83,138,108,138,247,216,126,199,31,182,102,27,250,192,220,12,217,54,125,219,4,206>>
ASSUME BLAKE2B(1,<<>>,MSG1) = <<2>>
ASSUME BLAKE2B(32,<<>>,MSG1) = <<232,139,215,87,173,91,155,237,243,114,216,211,240,207,108,150,42,70,157,182,26,38,95,100,24,225,255,237,134,218,41,236>>
ASSUME BLAKE2B(64,<<>>,MSG1) = <<79,228,218,97,188,199,86,7,27,34,104,67,54,29,116,148,76,114,36,93,35,232,36,94,166,120,193,63,220,215,254,42,229,41,207,153,154,217,156,194,79,122,115,65,106,24,186,83,231,108,10,254,248,59,22,165,104,177,47,191,193,162,103,77>>
ASSUME BLAKE2B(20,<<107,107,107,107,107>>,MSG1) = <<14,112,199,235,109,188,174,13,185,44,68,224,57,35,167,21,232,151,94,160>>
ASSUME BLAKE2B(64,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63>>,MSG1) = <<43,203,233,120,169,27,24,241,66,195,42,182,122,102,1,178,26,10,47,204,173,25,193,49,167,211,157,110,27,169,149,28,26,49,66,119,209,125,237,146,122,154,40,156,13,40,158,180,250,141,66,173,220,157,0,201,86,154,87,156,11,19,7,167>>
ASSUME BLAKE2S(1,<<>>,MSG1) = <<152>>
ASSUME BLAKE2S(32,<<>>,MSG1) = <<162,138,193,157,107,203,226,205,29,125,225,131,72,87,104,213,152,233,150,176,120,137,185,177,31,65,140,177,180,164,251,13>>
ASSUME BLAKE2S(20,<<107,107,107,107,107>>,MSG1) = <<186,48,0,250,236,227,15,38,203,89,56,48,165,184,191,36,197,170,97,172>>
ASSUME BLAKE2S(32,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31>>,MSG1) = <<114,42,194,29,148,195,134,130,52,224,117,187,86,146,103,142,100,96,194,52,102,177,11,72,172,241,51,230,248,159,144,130>>
ASSUME SHA1(MSG2) = <<66,1,222,159,152,203,10,155,140,245,35,152,190,120,2,181,93,69,38,106>>
ASSUME SHA224(MSG2) = <<149,106,126,158,238,252,79,97,117,232,205,51,124,210,138,128,246,160,169,136,179,254,14,214,71,180,169,83>>
ASSUME SHA256(MSG2) = <<106,176,219,161,244,241,223,187,55,180,249,238,176,146,192,159,202,73,0,173,50,189,205,20,125,141,222,53,214,200,124,53>>
ASSUME SHA384(MSG2) = <<222,80,96,32,60,88,180,25,241,54,193,118,102,211,57,160,87,5,87,88,39,227,96,15,4,117,246,251,48,137,135,10,237,226,108,90,9,3,222,165,147,139,205,237,78,233,230,25>>
ASSUME SHA512(MSG2) = <<136,83,22,122,177,76,4,57,25,152,26,100,9,48,126,246,139,91,114,111,75,128,220,171,37,157,170,36,183,202,188,184,180,187,253,62,46,54,237,152,70,80,89,102,31,103,46,101,41,205,204,103,62,126,171,250,120,221,49,134,116,91,17,42>>
ASSUME MD5(MSG2) = <<201,174,228,129,5,35,239,134,88,18,27,141,73,44,107,65>>
ASSUME SHA3(224,MSG2) = <<24,94,73,75,95,202,131,101,168,101,168,91,168,137,21,45,111,131,171,132,66,222,37,184,26,63,111,238>>
ASSUME SHA3(256,MSG2) = <<255,250,221,10,233,19,192,148,113,67,172,124,107,241,213,18,193,178,101,219,138,197,33,0,97,75,208,34,174,36,18,212>>
ASSUME SHA3(384,MSG2) = <<82,21,163,23,175,52,123,134,70,138,207,104,107,3,223,163,220,208,3,115,106,28,191,136,69,135,37,167,51,91,218,97,130,70,168,210,43,161,57,171,208,245,179,122,247,25,43,196>>
ASSUME SHA3(512,MSG2) = <<244,59,146,177,180,100,123,180,135,64,4,114,23,141,131,199,132,168,228,206,229,164,217,94,106,164,147,27,33,204,47,124,86,83,252,76,224,19,9,20,197,122,168,205,224,81,110,184,226,208,1,92,189,161,228,212,38,30,0,123,29,177,20,17>>
ASSUME BLAKE2B(1,<<>>,MSG2) = <<40>>
ASSUME BLAKE2B(32,<<>>,MSG2) = <<159,172,214,64,19,12,129,231,243,24,168,213,198,96,188,27,15,93,3,134,31,251,212,204,19,88,224,233,4,89,60,40>>
ASSUME BLAKE2B(64,<<>>,MSG2) = <<118,206,126,144,197,119,212,54,166,91,105,30,81,240,161,173,83,97,48,215,10,24,223,59,245,54,133,81,50,114,88,182,247,6,244,164,124,69,242,208,216,20,124,251,181,98,48,119,231,152,36,121,114,228,249,51,134,3,161,58,188,5,164,219>>
ASSUME BLAKE2B(20,<<107,107,107,107,107>>,MSG2) = <<31,146,209,43,143,245,56,79,161,131,25,145,6,155,51,66,159,79,156,174>>
ASSUME BLAKE2B(64,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63>>,MSG2) = <<36,45,126,239,201,150,69,95,169,182,48,150,253,46,239,23,53,57,73,61,162,229,9,63,173,144,83,159,223,233,30,109,83,209,66,112,233,14,146,26,182,11,199,153,38,145,72,240,110,67,241,206,169,74,113,67,139,247,21,28,98,131,254,6>>
ASSUME BLAKE2S(1,<<>>,MSG2) = <<104>>
ASSUME BLAKE2S(32,<<>>,MSG2) = <<202,148,58,204,168,154,52,207,64,64,207,142,162,65,71,221,148,234,98,164,157,232,239,154,136,175,82,114,51,153,39,179>>
ASSUME BLAKE2S(20,<<107,107,107,107,107>>,MSG2) = <<213,168,23,225,232,189,49,148,254,240,17,247,43,77,125,248,145,73,33,16>>
ASSUME BLAKE2S(32,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31>>,MSG2) = <<220,188,55,146,82,108,84,118,232,165,13,83,27,210,84,116,230,77,57,132,81,52,166,116,49,130,233,241,15,85,204,148>>
ASSUME SHA1(MSG3) = <<221,245,115,23,239,52,191,238,59,109,248,61,53,144,152,147,14,178,120,188>>
ASSUME SHA224(MSG3) = <<112,58,125,110,97,200,57,3,181,219,84,221,246,221,162,38,130,17,180,124,144,187,218,194,237,48,109,138>>
ASSUME SHA256(MSG3) = <<231,49,61,51,60,39,46,99,159,121,9,120,40,63,158,179,146,232,67,208,242,155,112,22,130,139,177,218,164,170,199,11>>
ASSUME SHA384(MSG3) = <<252,39,40,244,82,117,13,8,181,219,173,26,234,83,32,46,127,193,156,6,137,77,19,227,108,67,59,4,68,168,153,39,124,73,241,110,5,119,192,61,176,240,96,85,120,131,110,246>>
ASSUME SHA512(MSG3) = <<20,253,66,75,31,202,222,230,36,218,148,106,176,63,126,29,239,124,13,110,0,246,137,89,67,25,136,26,38,255,48,184,117,186,76,98,42,193,49,0,200,204,120,76,156,46,178,49,89,174,203,180,160,46,57,153,6,47,85,17,147,226,178,86>>
ASSUME MD5(MSG3) = <<82,192,229,116,225,25,141,229,254,63,143,17,68,13,203,27>>
ASSUME SHA3(224,MSG3) = <<53,240,29,99,64,117,147,148,69,238,7,49,112,172,25,236,161,126,229,217,39,70,175,163,170,175,5,133>>
ASSUME SHA3(256,MSG3) = <<123,8,206,209,155,23,252,213,226,37,177,168,180,137,56,126,18,44,24,210,211,26,95,112,50,83,16,202,33,12,124,250>>
ASSUME SHA3(384,MSG3) = <<129,255,243,73,34,23,252,118,194,251,170,98,50,80,113,43,45,246,175,115,234,132,184,65,119,225,160,184,40,178,175,128,235,115,187,179,33,56,15,0,207,244,108,171,134,207,224,111>>
ASSUME SHA3(512,MSG3) = <<224,251,159,144,74,141,53,51,237,58,224,192,53,85,44,32,77,192,167,22,86,185,39,155,124,209,255,169,243,211,206,157,61,36,53,238,223,18,85,23,77,78,95,253,117,189,39,147,228,203,205,251,151,15,173,14,170,225,68,217,12,81,214,128>>
ASSUME BLAKE2B(1,<<>>,MSG3) = <<119>>
ASSUME BLAKE2B(32,<<>>,MSG3) = <<3,212,96,127,30,61,60,96,84,210,118,197,62,171,78,228,222,4,68,99,112,214,170,171,16,59,36,6,3,73,191,71>>
ASSUME BLAKE2B(64,<<>>,MSG3) = <<205,61,48,76,95,194,23,232,71,120,185,151,248,157,198,84,166,164,74,136,177,253,67,196,102,142,74,223,187,226,176,209,105,0,42,111,152,178,42,185,141,222,70,3,71,125,205,174,172,62,111,243,32,177,5,149,49,253,139,108,54,115,142,103>>
ASSUME BLAKE2B(20,<<107,107,107,107,107>>,MSG3) = <<141,25,128,194,125,69,236,165,140,166,97,195,89,126,84,96,239,173,215,181>>
ASSUME BLAKE2B(64,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63>>,MSG3) = <<178,48,220,91,49,97,187,42,190,184,199,167,102,62,112,104,150,181,220,124,39,239,197,43,57,67,7,49,236,5,130,96,160,107,176,177,240,52,68,159,0,147,196,16,147,104,149,108,245,14,81,160,87,195,199,189,186,138,83,232,175,9,239,241>>
ASSUME BLAKE2S(1,<<>>,MSG3) = <<85>>
ASSUME BLAKE2S(32,<<>>,MSG3) = <<105,22,151,38,74,159,247,246,245,96,83,53,252,80,159,19,120,69,36,108,231,22,157,48,251,247,21,116,16,47,251,99>>
ASSUME BLAKE2S(20,<<107,107,107,107,107>>,MSG3) = <<42,42,85,243,165,245,138,177,101,138,254,179,86,78,57,255,252,175,68,203>>
ASSUME BLAKE2S(32,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31>>,MSG3) = <<25,161,135,239,192,73,210,218,174,14,5,225,30,13,177,0,222,118,20,84,136,223,189,32,52,98,43,117,176,187,124,51>>
ASSUME SHA1(MSG4) = <<160,212,146,187,15,200,137,208,236,163,188,19,112,102,171,111,79,116,243,105>>
ASSUME SHA224(MSG4) = <<133,15,239,53,71,141,122,148,164,23,113,61,189,237,74,57,193,139,226,180,14,111,32,244,112,102,211,6>>
ASSUME SHA256(MSG4) = <<67,36,214,95,60,16,53,103,245,88,156,113,11,192,143,133,35,249,41,169,39,46,58,243,111,201,104,229,42,188,108,39>>
ASSUME SHA384(MSG4) = <<108,150,154,134,95,56,210,234,172,96,183,150,58,132,201,123,162,123,203,118,229,137,203,225,226,232,158,173,106,238,74,208,51,122,66,104,240,84,190,73,198,4,221,217,150,146,3,109>>
ASSUME SHA512(MSG4) = <<72,15,168,91,228,30,245,90,65,32,140,162,143,252,135,67,201,28,247,210,71,88,222,254,111,149,191,177,109,230,20,252,134,183,1,3,72,150,176,71,221,87,29,228,49,136,83,216,14,8,9,223,22,47,23,82,203,38,218,109,219,148,160,221>>
ASSUME MD5(MSG4) = <<70,201,144,127,201,8,238,104,177,231,184,231,18,134,165,24>>
ASSUME SHA3(224,MSG4) = <<103,103,121,163,139,133,8,138,139,138,219,177,132,3,159,146,103,171,162,95,39,192,255,91,23,120,195,113>>
ASSUME SHA3(256,MSG4) = <<231,45,159,173,214,100,21,103,25,160,134,26,75,7,134,203,248,10,194,99,139,212,230,221,11,71,56,118,199,138,120,247>>
ASSUME SHA3(384,MSG4) = <<29,217,109,30,67,79,221,230,179,211,134,36,241,110,163,57,82,67,17,62,212,244,235,234,250,223,18,16,200,129,18,20,157,221,251,70,191,31,161,148,24,207,14,163,145,82,40,146>>
ASSUME SHA3(512,MSG4) = <<88,94,230,180,174,17,149,234,9,224,123,21,128,158,105,167,254,252,217,184,242,139,247,139,46,239,203,67,83,230,40,80,32,119,124,193,42,52,26,245,115,90,246,23,25,37,83,117,0,136,215,56,58,241,76,34,159,132,135,243,239,132,225,135>>
ASSUME BLAKE2B(1,<<>>,MSG4) = <<87>>
ASSUME BLAKE2B(32,<<>>,MSG4) = <<112,87,29,230,186,214,209,253,2,142,186,70,118,70,69,99,202,116,132,27,183,45,224,232,135,140,2,187,168,65,247,45>>
ASSUME BLAKE2B(64,<<>>,MSG4) = <<184,76,149,231,203,27,171,91,15,90,207,221,66,108,217,0,145,254,95,152,178,249,192,71,234,113,84,47,254,110,117,124,41,180,126,196,44,159,219,228,35,180,48,131,247,17,251,84,111,12,50,55,221,66,254,49,31,244,84,77,98,127,41,90>>
ASSUME BLAKE2B(20,<<107,107,107,107,107>>,MSG4) = <<17,155,67,148,247,155,77,54,228,156,147,247,184,22,169,177,247,181,28,251>>
ASSUME BLAKE2B(64,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63>>,MSG4) = <<18,197,161,235,39,77,74,224,175,89,13,226,202,15,66,148,126,62,200,168,250,221,70,217,172,87,29,25,162,55,4,139,237,143,143,130,184,128,80,6,104,82,150,34,31,162,44,10,8,155,177,27,69,45,38,37,55,156,47,183,144,228,5,188>>
ASSUME BLAKE2S(1,<<>>,MSG4) = <<74>>
ASSUME BLAKE2S(32,<<>>,MSG4) = <<92,187,125,142,123,108,142,133,122,240,153,230,181,57,230,62,29,249,24,80,66,251,53,67,186,13,24,193,226,131,64,147>>
ASSUME BLAKE2S(20,<<107,107,107,107,107>>,MSG4) = <<17,26,165,107,111,173,102,112,9,100,62,40,0,35,56,22,152,153,186,136>>
ASSUME BLAKE2S(32,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31>>,MSG4) = <<198,179,0,205,205,188,60,46,25,64,111,196,144,130,210,24,155,77,53,130,253,112,108,135,154,219,82,170,202,32,149,216>>
ASSUME SHA1(MSG5) = <<197,88,86,116,155,239,80,155,223,230,191,235,252,123,244,231,147,232,33,50>>
ASSUME SHA224(MSG5) = <<36,106,147,155,253,209,238,219,26,213,27,83,162,80,209,151,181,117,42,171,9,88,11,127,29,245,13,247>>
ASSUME SHA256(MSG5) = <<129,200,2,66,19,47,35,12,59,212,27,62,99,187,207,241,97,7,51,149,73,33,74,153,97,79,242,102,100,98,80,85>>
ASSUME SHA384(MSG5) = <<190,103,169,161,22,44,29,151,241,131,152,13,200,17,244,244,248,53,184,184,80,235,50,236,191,135,57,123,38,54,155,198,100,106,143,34,52,148,13,207,241,66,182,39,200,226,30,187>>
ASSUME SHA512(MSG5) = <<236,212,42,112,58,78,147,225,99,214,13,85,227,120,91,26,118,56,56,176,53,27,194,230,247,201,75,75,251,36,249,170,21,218,93,116,78,188,235,225,31,15,196,49,93,69,186,58,4,123,110,96,224,116,72,53,127,39,149,191,52,183,53,2>>
ASSUME MD5(MSG5) = <<166,47,109,89,232,55,134,118,147,240,66,245,184,245,162,54>>
ASSUME SHA3(224,MSG5) = <<183,38,126,213,193,120,133,82,75,206,112,240,201,104,161,195,225,165,74,133,215,210,170,112,22,146,25,182>>
ASSUME SHA3(256,MSG5) = <<18,117,83,154,101,150,235,1,251,200,58,84,175,47,41,148,170,126,168,190,176,176,212,64,174,7,198,32,173,142,170,159>>
ASSUME SHA3(384,MSG5) = <<25,224,207,101,27,238,90,152,152,180,27,199,6,31,175,48,177,151,4,223,227,29,216,139,19,138,79,150,37,213,52,27,255,145,192,18,103,240,144,9,208,140,147,58,111,94,167,188>>
ASSUME SHA3(512,MSG5) = <<239,61,34,48,157,60,244,206,98,231,245,145,62,60,130,102,233,43,202,37,35,10,15,153,219,12,46,22,156,38,9,246,53,189,16,162,110,204,138,100,11,171,132,153,7,8,202,212,21,32,38,104,21,162,20,212,182,44,87,249,223,208,139,211>>
ASSUME BLAKE2B(1,<<>>,MSG5) = <<74>>
ASSUME BLAKE2B(32,<<>>,MSG5) = <<166,158,2,54,133,250,95,25,252,161,58,204,2,20,42,156,248,69,12,229,183,121,102,88,110,13,0,12,74,78,169,66>>
ASSUME BLAKE2B(64,<<>>,MSG5) = <<112,178,160,230,218,236,172,34,199,162,223,130,192,110,63,192,180,198,107,213,239,128,152,228,237,84,231,35,179,147,215,158,243,188,235,160,121,160,26,20,198,239,42,226,237,17,113,223,22,98,205,20,239,56,230,247,123,1,199,244,129,68,221,9>>
ASSUME BLAKE2B(20,<<107,107,107,107,107>>,MSG5) = <<157,137,215,149,32,212,160,169,33,148,126,104,97,165,75,98,100,191,21,108>>
ASSUME BLAKE2B(64,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63>>,MSG5) = <<153,214,24,23,28,220,51,215,215,75,140,20,131,65,105,132,162,115,133,207,125,200,29,179,36,74,71,27,50,186,216,34,48,46,92,1,96,18,184,191,241,34,47,5,19,62,180,11,130,204,203,250,88,131,50,82,128,48,74,69,170,133,67,121>>
ASSUME BLAKE2S(1,<<>>,MSG5) = <<135>>
ASSUME BLAKE2S(32,<<>>,MSG5) = <<222,39,223,14,55,93,131,196,159,26,249,202,130,112,249,242,254,123,112,191,128,15,192,22,114,219,14,151,70,2,30,191>>
ASSUME BLAKE2S(20,<<107,107,107,107,107>>,MSG5) = <<121,191,157,215,188,166,63,218,64,60,227,218,208,120,185,21,17,53,87,61>>
ASSUME BLAKE2S(32,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31>>,MSG5) = <<27,64,115,64,2,9,62,112,196,98,168,209,41,103,55,126,253,87,101,60,65,38,80,152,75,127,229,12,121,37,27,36>>
ASSUME SHA1(MSG6) = <<190,222,146,190,41,195,135,78,27,84,221,199,121,136,214,6,252,133,122,142>>
ASSUME SHA224(MSG6) = <<228,128,193,194,31,253,63,16,159,192,205,224,218,249,103,199,72,147,43,100,248,226,89,217,141,177,116,32>>
ASSUME SHA256(MSG6) = <<57,227,215,182,181,208,117,211,125,5,58,216,155,36,180,27,239,79,60,41,118,12,132,68,124,171,63,59,225,136,34,65>>
ASSUME SHA384(MSG6) = <<153,210,100,48,245,97,134,76,47,125,144,182,134,80,185,96,200,108,133,214,191,127,84,206,238,228,4,189,213,150,99,167,240,85,136,181,199,80,184,98,162,162,79,106,154,212,192,80>>
ASSUME SHA512(MSG6) = <<143,60,195,11,63,181,191,150,54,136,164,100,136,36,146,72,172,44,103,240,248,90,20,82,51,198,193,227,193,109,205,29,246,52,192,125,29,49,218,2,87,111,101,185,207,100,225,195,253,179,24,182,137,184,161,78,46,149,82,188,243,15,177,51>>
ASSUME MD5(MSG6) = <<113,96,184,251,94,158,64,35,213,73,195,151,31,186,238,173>>
ASSUME SHA3(224,MSG6) = <<61,28,150,182,138,83,18,152,74,3,227,97,76,69,8,106,77,238,101,202,111,58,109,90,23,122,241,199>>
ASSUME SHA3(256,MSG6) = <<133,197,118,189,128,151,161,25,67,34,147,215,176,157,167,109,51,106,255,154,205,161,192,112,140,240,59,221,153,153,17,205>>
ASSUME SHA3(384,MSG6) = <<185,36,15,254,243,222,187,233,185,48,249,246,114,16,255,160,251,51,246,32,252,113,90,181,104,69,209,178,18,71,61,147,136,112,154,212,109,104,175,191,27,33,166,239,37,42,39,50>>
ASSUME SHA3(512,MSG6) = <<243,115,34,34,0,99,199,235,114,195,126,158,222,126,170,25,210,8,54,227,20,77,127,162,104,71,210,178,35,66,50,185,66,153,158,173,182,38,202,102,141,93,144,99,243,83,221,201,70,1,134,222,46,91,0,65,217,54,126,104,128,6,142,224>>
ASSUME BLAKE2B(1,<<>>,MSG6) = <<201>>
ASSUME BLAKE2B(32,<<>>,MSG6) = <<88,108,13,216,118,22,236,4,32,147,237,197,248,127,136,13,55,202,115,97,142,153,176,61,88,80,206,155,228,120,114,31>>
ASSUME BLAKE2B(64,<<>>,MSG6) = <<61,183,187,92,64,116,95,12,151,90,198,187,133,120,245,144,226,205,44,193,252,109,19,83,62,247,37,50,92,159,221,255,92,202,36,231,165,145,160,246,3,42,36,250,208,224,159,109,248,115,196,255,49,70,40,57,31,120,223,127,9,203,126,215>>
ASSUME BLAKE2B(20,<<107,107,107,107,107>>,MSG6) = <<163,33,103,206,88,19,20,235,252,22,208,167,98,100,37,33,216,2,159,157>>
ASSUME BLAKE2B(64,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63>>,MSG6) = <<195,95,225,202,68,53,147,124,242,59,26,52,84,235,178,230,89,19,130,143,147,181,252,140,244,94,247,246,81,212,11,29,64,140,124,100,227,134,21,251,15,235,196,65,21,238,24,41,156,99,236,202,35,195,15,101,254,106,21,255,86,228,185,7>>
ASSUME BLAKE2S(1,<<>>,MSG6) = <<242>>
ASSUME BLAKE2S(32,<<>>,MSG6) = <<83,119,228,255,149,123,218,77,69,53,244,135,152,118,183,26,97,5,108,76,236,49,231,131,151,198,110,196,122,134,161,48>>
ASSUME BLAKE2S(20,<<107,107,107,107,107>>,MSG6) = <<100,84,76,243,39,220,49,146,134,68,73,198,108,172,142,230,123,21,57,238>>
ASSUME BLAKE2S(32,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31>>,MSG6) = <<206,60,34,185,48,230,57,87,151,222,30,73,6,0,211,5,41,79,242,227,14,177,135,187,99,18,14,63,94,63,193,41>>
ASSUME SHA1(MSG7) = <<176,90,128,82,43,5,61,109,199,224,165,23,208,231,2,18,199,218,209,31>>
ASSUME SHA224(MSG7) = <<87,69,7,191,137,181,211,160,181,220,244,166,132,166,69,242,127,5,143,59,17,253,226,121,213,176,228,98>>
ASSUME SHA256(MSG7) = <<170,204,166,255,116,253,187,41,109,22,90,69,206,207,160,78,81,39,188,0,135,112,251,189,212,128,6,242,210,250,233,94>>
ASSUME SHA384(MSG7) = <<202,218,22,215,152,236,37,36,52,112,247,130,126,184,154,36,2,213,38,128,176,146,223,252,15,89,245,169,25,229,5,138,235,247,173,121,219,168,92,97,177,121,210,53,52,215,200,85>>
ASSUME SHA512(MSG7) = <<34,5,13,27,44,91,208,22,196,176,76,62,132,245,19,255,187,188,5,127,131,220,154,177,150,254,230,104,78,94,225,157,152,184,76,101,56,179,197,225,252,103,219,196,132,233,208,161,152,37,78,65,208,250,12,245,16,105,145,225,6,99,36,25>>
ASSUME MD5(MSG7) = <<112,189,102,46,122,239,189,168,90,15,114,68,22,123,120,151>>
ASSUME SHA3(224,MSG7) = <<91,219,35,243,36,155,177,14,33,80,166,247,159,137,112,43,254,130,52,172,158,127,127,164,28,233,209,3>>
ASSUME SHA3(256,MSG7) = <<45,32,115,174,16,115,4,203,199,215,39,2,33,43,151,137,20,136,180,117,79,77,19,224,32,178,72,161,222,220,20,165>>
ASSUME SHA3(384,MSG7) = <<143,198,196,3,213,85,170,150,29,197,237,6,74,233,217,199,42,128,47,13,182,207,0,123,83,93,147,239,171,248,140,236,66,255,231,240,52,143,71,102,31,78,133,253,13,224,53,2>>
ASSUME SHA3(512,MSG7) = <<60,240,244,53,142,16,45,167,40,107,242,16,93,125,152,2,102,179,212,93,28,34,150,56,236,176,163,99,20,240,134,189,228,64,162,130,225,3,176,235,28,217,217,165,41,73,85,21,238,96,165,168,27,193,182,173,135,152,179,56,152,84,126,216>>
ASSUME BLAKE2B(1,<<>>,MSG7) = <<3>>
ASSUME BLAKE2B(32,<<>>,MSG7) = <<111,124,238,185,3,34,208,3,197,179,58,232,185,217,40,46,1,89,219,220,23,67,74,188,63,145,174,121,70,65,215,125>>
ASSUME BLAKE2B(64,<<>>,MSG7) = <<20,156,17,74,62,140,110,6,186,254,226,124,157,13,224,227,158,242,130,148,250,13,159,129,135,109,204,235,16,187,65,16,30,37,101,147,88,126,70,184,68,129,158,215,222,217,13,86,192,132,61,240,108,149,209,105,92,61,230,53,205,122,136,142>>
ASSUME BLAKE2B(20,<<107,107,107,107,107>>,MSG7) = <<185,208,51,224,96,6,200,255,236,168,239,88,83,16,137,90,211,13,63,194>>
ASSUME BLAKE2B(64,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63>>,MSG7) = <<217,115,2,45,87,200,133,179,40,97,48,101,56,66,215,4,192,121,246,23,93,64,114,40,85,147,245,5,105,162,145,251,12,107,200,153,77,108,120,109,155,28,43,104,202,243,82,16,130,140,71,87,147,9,34,5,1,176,230,6,36,170,202,58>>
ASSUME BLAKE2S(1,<<>>,MSG7) = <<246>>
ASSUME BLAKE2S(32,<<>>,MSG7) = <<25,177,178,111,186,9,63,74,103,13,137,19,225,183,28,187,41,22,223,167,1,1,140,198,176,87,133,201,102,89,51,116>>
ASSUME BLAKE2S(20,<<107,107,107,107,107>>,MSG7) = <<186,142,181,253,2,125,213,143,66,78,99,67,156,48,18,84,113,82,32,36>>
ASSUME BLAKE2S(32,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31>>,MSG7) = <<130,224,46,98,160,102,242,243,205,122,138,84,37,129,203,244,65,227,92,247,167,113,252,122,219,9,101,216,68,107,113,203>>
ASSUME SHA1(MSG8) = <<74,1,177,39,38,39,229,190,0,245,123,195,195,2,156,35,164,82,230,41>>
ASSUME SHA224(MSG8) = <<93,91,162,70,154,125,179,227,213,182,34,189,239,187,143,239,85,130,34,43,15,61,212,29,180,182,32,117>>
ASSUME SHA256(MSG8) = <<103,217,73,46,98,143,211,118,224,178,239,236,140,162,185,155,18,62,32,44,246,32,222,178,112,114,141,249,121,178,247,62>>
ASSUME SHA384(MSG8) = <<52,19,136,169,220,34,117,7,78,144,207,57,67,35,118,25,25,118,28,128,95,217,227,112,151,124,153,102,160,232,200,26,82,19,95,2,87,118,112,176,7,22,56,164,162,109,188,49>>
ASSUME SHA512(MSG8) = <<104,207,250,109,13,118,243,9,201,206,13,53,40,9,57,248,226,89,144,196,59,123,8,108,205,247,9,190,53,176,125,77,219,165,153,84,31,242,177,193,157,52,234,73,174,175,185,101,154,219,122,195,192,176,120,187,48,162,45,87,252,102,135,239>>
ASSUME MD5(MSG8) = <<19,240,12,177,95,12,63,229,136,209,193,124,222,20,179,143>>
ASSUME SHA3(224,MSG8) = <<120,71,246,17,117,129,226,90,184,102,239,69,8,243,165,26,45,164,190,32,212,64,22,166,48,231,150,110>>
ASSUME SHA3(256,MSG8) = <<31,200,22,161,201,191,182,254,227,73,251,102,27,151,216,122,26,220,231,163,236,122,88,77,225,253,145,5,203,210,208,161>>
ASSUME SHA3(384,MSG8) = <<3,87,89,56,14,215,130,18,109,232,232,141,198,249,56,0,174,173,137,126,122,12,214,64,76,182,170,26,206,196,190,13,166,51,183,100,109,178,115,151,156,187,62,27,201,127,4,152>>
ASSUME SHA3(512,MSG8) = <<22,242,20,99,124,117,60,91,70,31,171,135,42,101,72,182,70,98,201,101,77,142,115,4,201,219,109,40,194,133,26,154,235,17,238,13,59,58,44,4,108,120,242,191,218,76,130,233,78,74,82,132,152,17,181,152,204,124,31,42,181,130,129,3>>
ASSUME BLAKE2B(1,<<>>,MSG8) = <<161>>
ASSUME BLAKE2B(32,<<>>,MSG8) = <<249,237,36,82,214,147,26,103,2,35,227,12,51,178,56,200,70,76,190,223,13,123,248,177,95,175,202,35,156,18,218,55>>
ASSUME BLAKE2B(64,<<>>,MSG8) = <<74,45,97,222,191,178,156,236,212,28,5,191,185,139,30,192,25,138,6,115,17,142,178,198,238,185,160,156,123,230,112,123,218,67,4,226,198,23,121,4,119,220,225,102,229,16,239,11,131,78,79,166,4,121,249,172,133,223,40,249,191,54,161,77>>
ASSUME BLAKE2B(20,<<107,107,107,107,107>>,MSG8) = <<25,187,116,66,59,118,254,71,9,33,158,47,199,140,105,244,229,13,207,174>>
ASSUME BLAKE2B(64,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63>>,MSG8) = <<183,87,224,190,242,34,193,31,157,183,106,118,2,2,254,31,142,210,4,57,226,83,254,135,91,127,185,10,87,171,99,26,209,58,146,44,8,125,250,200,240,199,48,97,148,34,67,172,17,40,44,239,136,119,128,104,111,37,73,8,106,225,223,142>>
ASSUME BLAKE2S(1,<<>>,MSG8) = <<121>>
ASSUME BLAKE2S(32,<<>>,MSG8) = <<123,170,178,146,92,18,3,154,52,238,207,72,196,249,104,177,132,46,174,154,223,150,199,70,232,61,129,252,16,115,76,27>>
ASSUME BLAKE2S(20,<<107,107,107,107,107>>,MSG8) = <<233,213,147,101,24,33,65,29,123,29,121,56,3,133,97,76,193,60,44,48>>
ASSUME BLAKE2S(32,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31>>,MSG8) = <<40,152,229,221,120,109,159,250,34,16,240,46,196,51,90,78,0,56,48,122,55,120,113,166,98,68,93,80,45,11,103,28>>
ASSUME SHA1(MSG9) = <<84,192,140,42,14,210,29,226,94,61,134,6,195,146,148,84,235,29,63,139>>
ASSUME SHA224(MSG9) = <<223,86,74,252,177,59,244,160,176,141,13,49,50,65,138,214,63,82,49,7,230,0,63,53,6,22,122,91>>
ASSUME SHA256(MSG9) = <<150,185,40,207,248,82,141,187,153,96,44,112,154,101,184,70,203,100,103,172,184,183,34,240,215,88,228,220,39,191,197,8>>
ASSUME SHA384(MSG9) = <<97,156,197,208,97,56,82,109,112,101,158,204,246,2,209,151,230,62,16,80,226,32,57,167,254,180,10,48,165,178,176,143,176,55,41,226,145,223,18,248,197,118,230,241,205,138,242,42>>
ASSUME SHA512(MSG9) = <<208,134,92,82,77,29,221,247,194,59,121,156,65,63,90,220,215,202,239,211,246,106,155,73,117,14,200,16,102,1,44,37,168,188,249,77,222,166,220,82,86,145,103,48,151,202,64,224,16,30,137,127,201,114,24,207,219,7,4,8,78,43,239,75>>
ASSUME MD5(MSG9) = <<95,230,169,247,107,84,30,198,69,85,149,137,218,154,8,138>>
ASSUME SHA3(224,MSG9) = <<47,21,18,206,33,72,131,9,239,201,179,100,153,212,186,22,35,30,4,210,42,71,30,174,7,170,44,115>>
ASSUME SHA3(256,MSG9) = <<178,130,105,56,161,156,202,11,63,49,39,79,160,214,221,54,66,69,8,210,69,161,103,34,167,180,67,239,207,193,103,175>>
ASSUME SHA3(384,MSG9) = <<103,188,198,123,222,103,240,192,63,224,165,35,125,205,106,231,128,64,136,186,230,135,187,231,106,65,113,161,3,14,135,58,62,160,177,190,101,115,163,87,129,67,24,170,39,79,78,99>>
ASSUME SHA3(512,MSG9) = <<87,29,17,82,228,6,180,52,192,117,146,71,17,250,148,187,66,162,93,203,144,127,221,149,25,105,172,46,22,60,174,169,26,132,196,250,227,246,171,120,164,254,172,21,167,169,230,198,155,108,21,136,213,8,220,17,227,180,160,252,201,222,21,92>>
ASSUME BLAKE2B(1,<<>>,MSG9) = <<22>>
ASSUME BLAKE2B(32,<<>>,MSG9) = <<233,140,128,121,87,220,131,253,234,21,43,194,64,11,214,236,156,64,104,51,97,175,48,168,181,26,39,27,144,185,218,212>>
ASSUME BLAKE2B(64,<<>>,MSG9) = <<114,73,162,1,26,191,1,149,83,204,147,4,158,212,14,166,192,150,101,222,110,122,71,177,143,74,164,52,18,72,165,122,227,231,214,241,162,82,166,51,21,78,72,17,202,108,51,54,179,109,142,87,207,18,45,139,126,50,183,131,247,11,193,223>>
ASSUME BLAKE2B(20,<<107,107,107,107,107>>,MSG9) = <<147,128,213,225,120,44,72,88,107,153,106,6,30,196,44,220,214,122,235,84>>
ASSUME BLAKE2B(64,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63>>,MSG9) = <<184,18,108,42,208,223,59,13,183,147,53,119,148,61,238,45,108,112,156,203,131,123,59,83,12,218,144,174,120,241,151,211,208,115,166,196,42,11,29,255,237,109,135,24,26,4,56,180,134,8,162,117,38,7,112,208,138,213,151,150,170,184,244,155>>
ASSUME BLAKE2S(1,<<>>,MSG9) = <<17>>
ASSUME BLAKE2S(32,<<>>,MSG9) = <<109,247,223,25,230,53,171,109,86,167,250,25,245,244,167,13,75,81,135,159,185,125,38,93,45,233,239,173,26,204,185,182>>
ASSUME BLAKE2S(20,<<107,107,107,107,107>>,MSG9) = <<34,244,204,58,219,46,1,224,13,137,255,0,68,130,148,107,234,119,45,51>>
ASSUME BLAKE2S(32,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31>>,MSG9) = <<77,191,113,200,238,17,194,197,102,87,73,165,174,95,248,210,170,193,126,98,206,252,166,146,17,36,152,186,73,8,144,139>>
ASSUME SHA1(MSG10) = <<80,78,39,55,106,110,15,13,186,130,149,184,92,178,93,196,223,161,125,35>>
ASSUME SHA224(MSG10) = <<108,156,153,231,209,9,12,185,149,32,12,204,159,199,87,164,56,61,58,16,4,204,54,188,38,108,121,71>>
ASSUME SHA256(MSG10) = <<156,231,54,142,77,175,50,52,22,49,180,146,232,3,89,220,159,89,75,72,69,60,208,221,91,240,177,146,121,204,23,126>>
ASSUME SHA384(MSG10) = <<156,40,77,38,111,201,28,51,167,246,236,187,3,38,100,107,62,209,92,195,63,216,191,150,130,103,194,25,145,202,26,67,77,214,92,100,238,34,199,221,111,84,35,149,15,96,85,96>>
ASSUME SHA512(MSG10) = <<35,107,221,127,56,166,17,181,1,75,35,146,69,195,129,174,93,32,169,111,30,91,49,120,34,124,0,5,107,127,168,196,78,245,72,128,8,93,130,183,226,12,214,95,43,253,161,50,102,150,195,249,74,106,91,173,12,181,206,40,154,164,97,103>>
ASSUME MD5(MSG10) = <<232,73,5,212,33,79,77,28,165,108,44,220,193,82,177,67>>
ASSUME SHA3(224,MSG10) = <<102,244,216,61,241,212,42,129,30,153,254,63,229,10,1,130,219,15,225,215,47,91,44,143,12,45,228,236>>
ASSUME SHA3(256,MSG10) = <<252,161,160,41,121,240,227,51,164,169,118,214,178,183,216,156,32,116,232,19,145,7,241,79,135,91,34,212,227,104,230,203>>
ASSUME SHA3(384,MSG10) = <<152,27,115,99,211,223,118,29,208,240,65,155,47,111,51,136,45,28,245,40,146,143,72,126,172,7,31,175,75,66,63,58,69,97,149,232,145,237,180,6,79,226,143,140,81,133,37,179>>
ASSUME SHA3(512,MSG10) = <<43,79,80,242,51,84,116,111,56,205,143,117,190,205,193,57,63,129,162,156,79,177,144,182,242,161,247,169,214,238,9,104,107,133,237,110,122,180,94,89,189,209,137,252,47,199,21,2,154,52,204,172,101,2,11,91,60,232,9,64,201,101,253,126>>
ASSUME BLAKE2B(1,<<>>,MSG10) = <<32>>
ASSUME BLAKE2B(32,<<>>,MSG10) = <<133,202,213,251,224,191,87,69,162,153,140,138,145,132,164,1,56,46,19,39,98,222,100,39,146,123,55,6,22,82,133,59>>
ASSUME BLAKE2B(64,<<>>,MSG10) = <<195,21,92,118,179,129,214,100,67,55,135,177,226,149,151,22,141,29,72,134,45,20,117,236,39,20,109,81,88,43,150,163,119,148,66,47,60,76,33,23,227,197,245,234,123,75,54,105,206,89,205,27,74,194,62,149,81,222,218,149,75,87,236,131>>
ASSUME BLAKE2B(20,<<107,107,107,107,107>>,MSG10) = <<49,69,98,51,91,190,113,76,149,230,18,95,127,219,47,80,211,227,131,150>>
ASSUME BLAKE2B(64,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63>>,MSG10) = <<23,29,29,108,219,113,199,142,39,90,248,144,21,151,97,247,153,132,228,155,2,97,196,52,28,133,217,113,204,41,98,248,133,82,46,57,67,49,233,136,233,67,15,138,125,232,223,2,93,137,116,57,125,213,127,255,65,145,192,223,56,175,162,169>>
ASSUME BLAKE2S(1,<<>>,MSG10) = <<2>>
ASSUME BLAKE2S(32,<<>>,MSG10) = <<151,69,16,74,76,124,222,157,253,145,216,91,180,224,166,149,219,129,92,200,90,147,35,183,143,99,30,179,70,179,147,147>>
ASSUME BLAKE2S(20,<<107,107,107,107,107>>,MSG10) = <<234,114,53,193,201,199,189,132,180,41,50,19,183,76,32,71,28,120,106,223>>
ASSUME BLAKE2S(32,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31>>,MSG10) = <<143,114,233,43,99,137,153,241,30,227,22,55,78,202,188,197,53,117,34,11,241,36,120,242,174,89,135,88,242,181,129,84>>
ASSUME SHA1(MSG11) = <<52,213,229,130,2,158,155,155,133,178,254,190,49,218,61,183,205,171,170,234>>
ASSUME SHA224(MSG11) = <<242,210,50,6,201,65,155,231,94,84,193,46,121,180,153,3,86,90,146,64,240,157,11,241,92,84,142,212>>
ASSUME SHA256(MSG11) = <<168,210,62,117,217,54,243,3,210,72,136,141,155,22,94,229,67,244,203,175,202,211,201,221,42,121,189,132,250,161,29,7>>
ASSUME SHA384(MSG11) = <<248,35,74,184,31,95,150,65,198,86,104,8,37,169,187,179,194,97,107,204,128,182,93,94,71,154,77,150,116,46,27,135,66,51,12,158,130,86,239,95,3,202,169,50,72,112,68,202>>
ASSUME SHA512(MSG11) = <<224,182,162,15,28,12,136,151,10,147,64,21,44,213,161,193,236,243,211,184,222,85,16,39,65,135,148,56,7,148,115,84,1,51,184,18,112,110,93,190,195,34,200,201,82,59,111,200,198,209,110,230,38,232,122,213,254,61,41,22,175,237,195,105>>
ASSUME MD5(MSG11) = <<172,206,36,116,214,204,131,2,18,13,9,200,24,209,126,247>>
ASSUME SHA3(224,MSG11) = <<138,26,179,139,251,49,57,91,70,236,41,198,45,131,186,220,95,137,181,136,178,69,127,126,110,57,213,218>>
ASSUME SHA3(256,MSG11) = <<49,87,136,87,242,140,121,92,55,206,185,191,255,211,210,66,103,211,56,230,34,146,122,225,40,51,10,91,7,242,35,88>>
ASSUME SHA3(384,MSG11) = <<107,215,198,179,222,147,201,253,7,41,93,254,100,14,125,6,37,236,198,222,247,154,219,205,34,1,156,167,166,170,132,84,122,130,134,222,47,65,143,208,229,209,220,245,143,5,90,203>>
ASSUME SHA3(512,MSG11) = <<89,26,1,193,158,154,59,76,194,249,16,220,149,204,5,123,59,130,175,83,187,125,145,215,117,178,191,0,2,68,53,115,58,50,10,58,184,46,114,81,193,12,241,70,24,37,163,47,134,194,200,172,0,245,193,116,231,132,1,220,83,112,248,150>>
ASSUME BLAKE2B(1,<<>>,MSG11) = <<239>>
ASSUME BLAKE2B(32,<<>>,MSG11) = <<201,174,56,89,150,75,53,240,76,84,179,109,51,207,41,157,114,144,238,98,16,5,210,142,81,89,138,148,53,96,170,170>>
ASSUME BLAKE2B(64,<<>>,MSG11) = <<113,84,107,191,145,16,173,24,76,198,15,46,177,32,252,253,155,77,187,202,122,127,18,112,4,91,138,35,166,164,244,51,15,101,193,240,48,221,47,95,171,198,197,118,23,36,44,55,207,66,123,217,4,7,250,197,185,222,255,211,174,136,140,57>>
ASSUME BLAKE2B(20,<<107,107,107,107,107>>,MSG11) = <<141,59,179,127,245,184,11,236,154,238,49,211,215,67,128,55,1,185,164,210>>
ASSUME BLAKE2B(64,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63>>,MSG11) = <<192,219,32,77,240,85,214,215,244,178,148,152,177,26,128,42,144,5,122,82,71,132,209,38,197,4,195,135,154,7,169,250,3,160,214,100,217,54,200,110,72,173,22,219,245,10,108,184,142,27,211,145,54,127,127,53,77,174,139,146,186,185,72,160>>
ASSUME BLAKE2S(1,<<>>,MSG11) = <<157>>
ASSUME BLAKE2S(32,<<>>,MSG11) = <<104,70,249,148,147,67,98,65,208,166,242,137,201,169,17,177,208,244,134,13,184,242,181,223,82,149,255,211,125,3,163,196>>
ASSUME BLAKE2S(20,<<107,107,107,107,107>>,MSG11) = <<216,97,191,48,119,195,232,84,241,221,5,135,253,33,123,138,159,71,140,188>>
ASSUME BLAKE2S(32,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31>>,MSG11) = <<54,30,153,41,239,141,53,178,128,80,210,159,145,55,234,223,36,178,242,46,104,32,41,166,115,129,179,88,70,71,125,45>>
ASSUME SHA1(MSG12) = <<160,145,51,230,115,15,254,137,158,251,112,32,76,181,100,108,213,220,36,238>>
ASSUME SHA224(MSG12) = <<109,249,131,232,156,140,19,206,205,251,95,22,252,103,121,42,227,196,208,98,223,105,18,77,136,154,57,111>>
ASSUME SHA256(MSG12) = <<210,116,47,31,74,198,187,124,162,178,57,238,24,64,43,168,179,249,248,230,82,210,167,41,115,194,185,186,17,192,140,246>>
ASSUME SHA384(MSG12) = <<232,72,14,156,77,217,15,136,16,74,121,203,172,206,196,142,219,215,152,161,66,180,242,65,215,38,220,37,47,21,2,53,14,130,76,125,24,218,221,89,215,215,22,145,159,184,249,191>>
ASSUME SHA512(MSG12) = <<153,177,111,23,170,11,150,154,91,143,8,243,103,113,157,81,110,51,12,205,38,96,182,240,104,142,192,49,219,199,131,222,80,161,205,24,90,37,104,219,167,80,112,162,64,61,23,212,116,29,22,53,120,81,93,253,47,247,86,221,254,77,71,177>>
ASSUME MD5(MSG12) = <<16,178,218,26,130,241,109,153,168,26,114,3,254,159,2,203>>
ASSUME SHA3(224,MSG12) = <<98,171,187,112,253,142,247,76,75,148,225,228,184,121,143,10,247,94,220,25,8,197,65,245,192,156,171,236>>
ASSUME SHA3(256,MSG12) = <<252,182,234,115,136,182,130,102,229,223,159,155,234,249,128,252,165,95,220,99,147,244,217,124,225,188,178,9,110,180,169,117>>
ASSUME SHA3(384,MSG12) = <<80,205,96,191,131,231,68,14,57,111,171,9,4,186,73,117,66,103,209,91,240,14,90,253,199,19,54,182,201,64,35,54,190,11,21,162,114,17,151,3,203,183,171,61,165,64,96,1>>
ASSUME SHA3(512,MSG12) = <<70,153,146,64,158,20,51,112,47,119,135,252,91,247,135,219,46,61,176,74,246,63,6,198,195,75,100,122,220,77,235,146,220,150,203,94,90,80,217,122,5,182,133,247,111,176,255,76,5,127,224,126,216,84,45,56,169,136,169,34,254,96,10,222>>
ASSUME BLAKE2B(1,<<>>,MSG12) = <<241>>
ASSUME BLAKE2B(32,<<>>,MSG12) = <<240,80,29,6,89,120,128,89,43,196,146,52,238,241,0,236,31,243,73,5,141,14,157,155,117,53,4,226,74,248,109,214>>
ASSUME BLAKE2B(64,<<>>,MSG12) = <<45,158,50,159,66,175,163,96,29,100,102,146,184,28,19,232,127,202,255,91,241,89,114,233,129,61,115,115,203,109,24,31,149,153,244,213,19,212,175,79,214,235,211,116,151,172,235,41,171,165,238,35,237,118,77,133,16,181,82,189,8,136,20,251>>
ASSUME BLAKE2B(20,<<107,107,107,107,107>>,MSG12) = <<100,163,154,1,176,252,161,39,198,79,186,134,216,161,118,45,55,210,246,71>>
ASSUME BLAKE2B(64,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63>>,MSG12) = <<184,144,196,207,171,206,139,246,152,215,75,221,46,99,6,39,244,156,9,96,150,175,105,96,221,110,95,76,158,198,177,250,60,129,216,214,186,47,182,171,224,33,72,18,208,15,22,97,20,180,154,89,235,146,23,209,56,209,161,65,103,60,68,131>>
ASSUME BLAKE2S(1,<<>>,MSG12) = <<105>>
ASSUME BLAKE2S(32,<<>>,MSG12) = <<131,71,12,117,175,162,61,144,205,118,89,144,110,75,71,218,162,120,19,31,187,34,82,65,221,55,164,15,213,53,90,199>>
ASSUME BLAKE2S(20,<<107,107,107,107,107>>,MSG12) = <<73,231,27,210,134,125,204,249,106,64,214,65,196,91,90,80,5,218,208,62>>
ASSUME BLAKE2S(32,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31>>,MSG12) = <<180,52,169,173,49,177,51,184,115,146,74,41,242,76,253,142,0,67,27,28,42,160,136,23,110,126,245,179,17,174,215,155>>
ASSUME SHA1(MSG13) = <<128,138,234,51,44,227,103,84,29,55,173,174,127,148,229,156,92,26,147,78>>
ASSUME SHA224(MSG13) = <<205,182,107,195,180,139,140,68,107,169,230,34,13,159,156,37,226,237,97,32,148,144,24,52,205,233,45,198>>
ASSUME SHA256(MSG13) = <<48,127,143,194,193,98,43,146,118,46,129,141,57,161,133,212,214,103,173,73,164,176,124,234,225,244,175,160,8,169,62,196>>
ASSUME SHA384(MSG13) = <<67,1,115,56,119,100,135,70,97,172,186,30,145,78,80,246,208,251,172,83,72,9,232,89,177,218,67,150,250,211,213,242,76,37,198,162,208,36,134,216,251,218,57,148,113,61,152,26>>
ASSUME SHA512(MSG13) = <<161,85,110,41,24,87,120,170,89,145,227,75,136,132,200,64,213,137,240,251,180,184,237,89,14,81,233,172,78,176,58,0,129,37,0,13,178,103,31,143,231,244,133,181,154,119,181,24,103,0,120,236,180,26,84,180,205,2,167,241,210,202,76,109>>
ASSUME MD5(MSG13) = <<3,254,251,188,235,226,149,156,242,39,2,65,170,254,2,80>>
ASSUME SHA3(224,MSG13) = <<95,39,134,66,240,80,220,129,87,37,228,132,93,179,43,144,60,113,27,229,45,215,255,39,138,81,104,192>>
ASSUME SHA3(256,MSG13) = <<127,81,108,208,214,112,220,68,147,106,111,126,155,103,39,30,65,216,133,2,172,179,147,106,2,180,100,249,71,92,162,204>>
ASSUME SHA3(384,MSG13) = <<216,168,172,9,169,157,116,44,81,161,8,13,216,148,214,113,39,238,58,255,183,248,177,30,20,23,30,189,135,242,22,4,198,155,218,134,231,126,190,30,235,199,1,92,147,248,215,15>>
ASSUME SHA3(512,MSG13) = <<164,85,206,173,29,172,103,122,51,83,42,137,98,251,7,249,133,168,210,109,23,109,244,7,203,75,67,206,107,93,221,112,141,106,14,194,82,55,242,66,97,151,34,51,170,98,175,171,9,210,110,112,197,82,250,58,215,68,64,204,246,224,45,71>>
ASSUME BLAKE2B(1,<<>>,MSG13) = <<22>>
ASSUME BLAKE2B(32,<<>>,MSG13) = <<163,74,78,30,3,197,65,223,191,48,153,196,182,193,67,192,34,206,214,92,40,189,126,138,16,224,160,152,70,26,236,240>>
ASSUME BLAKE2B(64,<<>>,MSG13) = <<71,136,157,249,235,77,113,122,252,80,25,223,92,106,131,223,0,160,184,103,115,149,224,120,205,87,120,172,224,243,56,166,24,230,139,125,154,251,6,93,158,106,1,204,211,29,16,148,71,231,250,231,113,195,238,62,16,87,9,25,65,34,186,43>>
ASSUME BLAKE2B(20,<<107,107,107,107,107>>,MSG13) = <<39,68,240,233,52,165,86,78,23,226,181,57,150,97,176,12,12,35,106,95>>
ASSUME BLAKE2B(64,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63>>,MSG13) = <<254,155,40,43,25,110,57,57,172,177,131,168,50,188,255,242,173,32,212,14,72,233,244,176,229,104,188,156,4,111,236,206,133,131,70,132,1,169,250,204,214,27,177,49,177,70,200,2,137,130,110,15,92,105,50,38,69,31,242,152,139,181,205,52>>
ASSUME BLAKE2S(1,<<>>,MSG13) = <<17>>
ASSUME BLAKE2S(32,<<>>,MSG13) = <<38,253,136,146,171,10,95,18,212,172,191,241,239,215,220,217,43,153,226,211,119,248,136,240,126,60,184,27,35,43,17,207>>
ASSUME BLAKE2S(20,<<107,107,107,107,107>>,MSG13) = <<57,3,68,153,85,94,133,169,176,125,250,132,50,156,85,30,102,251,232,223>>
ASSUME BLAKE2S(32,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31>>,MSG13) = <<250,195,78,189,83,133,165,220,131,16,229,219,228,170,7,27,50,171,118,145,100,194,34,247,130,132,138,139,8,88,68,32>>
ASSUME SHA1(MSG14) = <<205,199,233,35,216,219,15,88,109,208,42,11,16,83,7,209,254,107,98,35>>
ASSUME SHA224(MSG14) = <<69,4,129,140,87,63,203,60,116,12,212,249,205,252,120,250,4,1,170,184,64,127,77,228,108,173,97,112>>
ASSUME SHA256(MSG14) = <<53,126,187,150,206,170,208,152,243,34,205,84,95,248,152,199,148,133,7,132,90,99,199,39,252,246,178,127,243,124,234,196>>
ASSUME SHA384(MSG14) = <<132,132,115,181,76,105,212,245,235,47,11,106,8,202,13,200,237,108,245,169,66,90,174,145,182,249,104,145,195,226,134,186,197,87,128,157,186,142,208,44,253,246,99,177,106,48,204,192>>
ASSUME SHA512(MSG14) = <<146,234,79,51,2,123,31,48,205,216,50,205,187,201,91,183,183,224,251,182,98,134,150,62,28,158,56,92,107,252,175,214,68,254,255,147,26,126,151,50,242,241,62,140,224,37,118,1,117,253,140,251,58,9,12,99,224,151,194,164,192,72,116,199>>
ASSUME MD5(MSG14) = <<63,96,231,226,144,206,30,148,28,250,63,215,252,3,22,149>>
ASSUME SHA3(224,MSG14) = <<16,32,41,123,32,98,228,168,0,85,203,156,138,140,169,100,95,232,84,250,250,44,74,186,58,92,166,107>>
ASSUME SHA3(256,MSG14) = <<217,220,241,249,142,73,167,155,6,67,169,230,143,239,72,7,159,248,119,124,94,126,127,147,70,157,237,101,241,146,172,113>>
ASSUME SHA3(384,MSG14) = <<65,67,161,75,167,197,151,61,158,155,194,11,123,83,189,229,206,243,48,200,191,205,121,91,252,114,253,224,115,9,23,91,234,242,243,144,237,29,102,49,44,228,118,51,228,206,178,52>>
ASSUME SHA3(512,MSG14) = <<158,157,129,227,70,207,154,98,220,75,218,81,142,64,150,219,85,49,136,54,141,161,83,94,170,68,25,130,185,141,57,156,12,143,1,54,249,135,136,107,148,209,119,3,135,224,123,39,102,96,49,124,203,102,136,76,199,66,117,80,183,120,12,212>>
ASSUME BLAKE2B(1,<<>>,MSG14) = <<177>>
ASSUME BLAKE2B(32,<<>>,MSG14) = <<158,3,179,210,156,86,10,171,141,204,23,47,69,252,9,128,38,197,9,175,15,192,124,196,245,86,210,132,60,132,182,75>>
ASSUME BLAKE2B(64,<<>>,MSG14) = <<198,169,85,224,89,101,130,247,82,253,118,217,148,104,87,226,129,79,108,247,8,181,213,172,178,203,214,12,211,82,27,64,201,115,193,233,50,74,63,173,226,156,30,105,69,205,192,216,69,157,225,45,113,189,173,28,51,140,98,61,248,154,106,195>>
ASSUME BLAKE2B(20,<<107,107,107,107,107>>,MSG14) = <<2,61,51,98,53,45,197,207,32,53,99,45,135,140,200,201,225,254,142,224>>
ASSUME BLAKE2B(64,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63>>,MSG14) = <<32,143,0,128,114,75,156,166,75,69,208,160,105,77,101,234,119,203,219,178,53,107,146,218,125,15,135,251,80,245,79,238,215,75,240,203,7,250,67,85,201,222,166,246,174,202,157,221,115,159,18,25,163,4,124,114,166,132,88,85,67,116,39,173>>
ASSUME BLAKE2S(1,<<>>,MSG14) = <<87>>
ASSUME BLAKE2S(32,<<>>,MSG14) = <<78,250,13,207,214,102,88,111,97,15,89,176,94,45,94,27,42,51,109,55,67,184,173,68,178,66,97,122,56,141,66,143>>
ASSUME BLAKE2S(20,<<107,107,107,107,107>>,MSG14) = <<160,187,125,89,193,255,55,21,227,40,177,201,232,93,193,99,79,179,107,223>>
ASSUME BLAKE2S(32,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31>>,MSG14) = <<233,100,234,187,38,236,21,97,73,173,151,137,168,123,93,91,111,244,105,218,134,123,236,228,124,86,106,74,80,183,84,93>>
ASSUME SHA1(MSG15) = <<114,231,128,140,115,5,197,175,26,173,238,37,79,8,147,35,182,229,226,85>>
ASSUME SHA224(MSG15) = <<182,54,185,47,152,172,159,190,132,186,154,71,14,74,23,152,12,189,91,169,234,156,164,238,126,193,220,179>>
ASSUME SHA256(MSG15) = <<202,252,59,238,181,48,165,11,183,52,101,196,89,59,172,79,208,106,116,164,245,32,62,198,81,232,88,170,3,2,75,231>>
ASSUME SHA384(MSG15) = <<142,13,168,59,26,130,165,83,239,197,127,27,100,103,168,192,103,181,116,68,161,7,92,170,105,169,96,156,39,142,64,247,79,115,58,204,36,89,26,59,241,14,125,191,144,104,36,235>>
ASSUME SHA512(MSG15) = <<254,218,1,81,97,179,25,28,211,231,34,226,178,1,216,146,156,143,141,6,159,253,212,87,181,87,108,130,3,182,114,239,114,74,218,161,82,142,161,231,158,215,216,229,159,111,62,83,196,138,234,117,221,189,190,144,159,254,41,99,221,111,27,55>>
ASSUME MD5(MSG15) = <<205,98,219,149,115,242,233,226,220,51,91,123,145,244,204,250>>
ASSUME SHA3(224,MSG15) = <<243,237,108,233,176,91,132,151,84,159,251,6,83,48,94,8,161,238,233,240,182,67,219,105,145,255,162,100>>
ASSUME SHA3(256,MSG15) = <<116,59,211,46,119,90,199,56,122,87,212,213,116,200,157,222,245,235,203,8,187,92,198,184,140,85,162,123,80,53,204,69>>
ASSUME SHA3(384,MSG15) = <<183,135,117,194,60,235,25,238,97,39,65,70,184,232,58,119,104,199,212,228,135,36,23,177,70,229,105,209,196,80,118,104,193,72,25,111,183,153,174,29,151,211,18,244,30,20,14,105>>
ASSUME SHA3(512,MSG15) = <<98,200,27,120,66,103,134,229,165,212,49,8,45,152,133,124,126,107,25,136,253,114,20,120,56,98,51,190,92,25,115,28,234,57,68,220,36,225,146,251,151,110,66,45,139,211,21,36,195,80,38,230,21,171,84,195,26,88,171,119,42,191,230,215>>
ASSUME BLAKE2B(1,<<>>,MSG15) = <<198>>
ASSUME BLAKE2B(32,<<>>,MSG15) = <<55,75,154,201,23,118,140,66,154,101,184,82,178,81,65,242,162,4,180,105,86,190,204,93,164,3,255,210,44,77,55,166>>
ASSUME BLAKE2B(64,<<>>,MSG15) = <<12,192,105,102,84,37,112,128,34,127,61,182,204,170,228,224,181,249,16,225,111,232,29,8,107,21,165,124,105,228,126,23,228,45,106,4,79,202,36,153,138,163,132,1,16,176,109,225,37,125,169,168,42,167,233,16,60,73,182,58,171,50,9,47>>
ASSUME BLAKE2B(20,<<107,107,107,107,107>>,MSG15) = <<181,15,63,36,126,73,184,206,233,167,99,247,105,7,216,35,21,215,198,251>>
ASSUME BLAKE2B(64,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63>>,MSG15) = <<51,81,107,113,94,254,4,146,161,230,132,125,53,93,229,112,166,21,11,160,254,120,80,236,197,212,249,1,70,219,201,18,48,117,232,198,212,151,53,251,243,1,51,151,133,114,146,124,30,147,226,18,98,3,181,156,26,182,127,24,157,20,41,42>>
ASSUME BLAKE2S(1,<<>>,MSG15) = <<128>>
ASSUME BLAKE2S(32,<<>>,MSG15) = <<151,47,232,235,177,197,161,161,174,20,216,189,239,18,95,66,246,8,21,223,226,215,24,225,119,135,34,47,60,62,188,67>>
ASSUME BLAKE2S(20,<<107,107,107,107,107>>,MSG15) = <<185,103,218,201,116,10,209,145,2,123,69,173,184,116,182,93,214,65,177,185>>
ASSUME BLAKE2S(32,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31>>,MSG15) = <<247,159,100,151,136,216,179,55,176,26,71,122,64,58,22,87,232,236,53,12,75,229,104,129,149,104,133,249,44,31,172,52>>
ASSUME SHA1(MSG16) = <<170,237,221,48,42,52,245,6,160,196,181,248,199,254,1,75,173,56,61,191>>
ASSUME SHA224(MSG16) = <<151,36,101,102,124,249,2,115,167,118,235,179,74,207,141,0,115,172,117,242,236,21,11,33,144,148,235,160>>
ASSUME SHA256(MSG16) = <<201,235,112,102,60,134,78,105,68,39,245,44,129,25,179,84,2,0,217,211,239,41,33,191,188,110,250,17,228,139,177,123>>
ASSUME SHA384(MSG16) = <<82,158,219,173,181,173,164,96,222,133,126,128,148,165,9,101,151,119,146,221,192,71,167,207,78,122,196,251,105,196,90,52,233,116,174,41,123,145,83,161,37,252,219,36,145,224,115,113>>
ASSUME SHA512(MSG16) = <<152,69,221,229,186,202,46,46,186,77,222,198,226,96,156,153,210,218,32,107,97,170,244,37,240,158,32,99,55,62,149,103,105,11,119,10,169,58,243,26,76,50,166,133,25,39,42,51,226,69,81,19,80,197,249,155,21,192,249,23,8,162,49,124>>
ASSUME MD5(MSG16) = <<0,20,199,116,61,46,188,44,248,83,147,68,8,118,120,251>>
ASSUME SHA3(224,MSG16) = <<45,236,167,169,242,247,135,101,19,45,239,203,145,228,197,140,196,24,44,45,147,8,186,40,228,238,56,188>>
ASSUME SHA3(256,MSG16) = <<1,212,126,141,109,206,110,61,203,241,186,166,248,69,182,172,228,239,116,189,23,218,129,118,236,196,155,195,93,190,93,33>>
ASSUME SHA3(384,MSG16) = <<98,61,255,53,67,80,244,54,65,187,73,26,209,241,89,166,103,186,213,13,51,246,94,30,45,124,169,57,123,132,38,59,94,57,30,110,25,70,104,179,155,57,81,22,192,68,205,163>>
ASSUME SHA3(512,MSG16) = <<63,217,220,69,167,205,194,145,21,61,123,113,74,214,141,130,65,132,196,22,109,44,152,13,65,213,234,249,38,110,3,137,47,150,83,70,54,31,98,203,52,64,76,254,166,234,22,93,205,216,195,75,233,154,189,201,197,0,161,254,220,49,84,2>>
ASSUME BLAKE2B(1,<<>>,MSG16) = <<224>>
ASSUME BLAKE2B(32,<<>>,MSG16) = <<65,160,147,33,73,173,221,88,83,75,30,186,255,142,27,53,67,186,28,59,110,118,178,248,52,56,24,175,175,29,14,98>>
ASSUME BLAKE2B(64,<<>>,MSG16) = <<111,189,49,214,68,215,97,180,119,254,38,4,46,220,185,73,182,138,171,226,216,171,232,172,153,188,77,212,18,31,64,169,49,112,123,145,15,179,161,135,191,202,229,234,213,201,243,222,72,20,5,196,243,57,87,188,24,48,50,108,179,115,96,55>>
ASSUME BLAKE2B(20,<<107,107,107,107,107>>,MSG16) = <<1,162,97,61,126,250,136,217,208,65,144,43,90,39,216,230,57,68,176,20>>
ASSUME BLAKE2B(64,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63>>,MSG16) = <<22,254,99,22,223,196,18,178,149,160,14,56,18,184,97,16,138,181,147,19,89,214,83,228,116,75,81,236,15,48,94,145,84,192,252,217,99,59,66,154,243,54,8,254,219,114,2,183,107,97,86,68,98,218,228,67,58,200,9,189,16,81,175,169>>
ASSUME BLAKE2S(1,<<>>,MSG16) = <<141>>
ASSUME BLAKE2S(32,<<>>,MSG16) = <<3,215,174,155,244,108,228,163,232,133,179,3,218,125,132,6,111,45,57,115,200,62,144,135,137,186,125,108,208,168,214,93>>
ASSUME BLAKE2S(20,<<107,107,107,107,107>>,MSG16) = <<195,59,102,149,168,21,60,179,92,246,205,50,194,29,212,129,218,85,178,203>>
ASSUME BLAKE2S(32,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31>>,MSG16) = <<158,224,225,173,42,240,53,206,77,126,119,5,247,90,144,215,142,220,209,208,33,188,158,178,35,89,199,131,126,91,200,249>>
ASSUME SHA1(MSG17) = <<251,7,123,146,37,52,150,210,208,96,17,188,171,2,78,164,152,5,59,113>>
ASSUME SHA224(MSG17) = <<34,101,1,205,136,252,21,106,53,140,58,225,177,75,132,35,52,193,163,78,98,252,182,183,107,248,237,106>>
ASSUME SHA256(MSG17) = <<13,220,36,228,213,243,180,138,167,4,157,75,207,14,4,160,134,141,130,156,205,117,149,155,220,97,27,230,193,152,237,158>>
ASSUME SHA384(MSG17) = <<209,255,247,225,220,226,204,157,6,225,173,41,37,83,105,200,249,130,204,175,82,174,19,97,37,14,248,238,24,214,64,171,91,243,125,102,158,168,75,103,128,143,39,45,117,67,174,20>>
ASSUME SHA512(MSG17) = <<238,50,110,212,30,68,198,248,2,134,210,194,131,173,171,122,128,91,145,70,127,173,141,17,195,120,121,190,37,212,249,215,220,83,120,200,30,207,36,47,195,141,52,73,254,140,116,33,183,253,135,154,85,241,155,146,224,241,149,211,200,48,62,66>>
ASSUME MD5(MSG17) = <<47,123,83,26,226,163,255,88,147,108,96,29,11,90,60,210>>
ASSUME SHA3(224,MSG17) = <<23,63,154,51,54,57,89,243,150,249,129,67,132,108,220,241,150,196,181,59,121,10,183,232,120,150,219,239>>
ASSUME SHA3(256,MSG17) = <<253,244,129,62,125,112,69,217,147,39,54,108,176,40,232,29,61,66,45,1,58,163,156,234,98,46,139,22,189,177,53,19>>
ASSUME SHA3(384,MSG17) = <<166,121,121,195,108,239,252,88,221,34,183,253,152,16,251,230,27,49,81,10,204,183,9,40,219,110,33,46,133,212,227,221,224,90,62,237,16,46,56,120,64,117,173,49,57,95,110,79>>
ASSUME SHA3(512,MSG17) = <<214,16,201,151,60,228,193,241,140,230,247,53,130,121,240,92,2,240,174,198,220,112,76,196,253,73,87,222,195,39,105,80,197,93,89,169,206,37,2,86,146,236,222,176,255,109,125,82,127,227,162,97,76,82,39,159,207,97,251,57,173,225,94,199>>
ASSUME BLAKE2B(1,<<>>,MSG17) = <<5>>
ASSUME BLAKE2B(32,<<>>,MSG17) = <<173,20,28,168,49,174,230,92,87,156,232,222,207,224,226,187,8,225,175,227,215,27,190,109,22,230,39,176,113,60,158,167>>
ASSUME BLAKE2B(64,<<>>,MSG17) = <<84,30,216,200,81,35,160,195,1,95,123,157,70,248,239,121,238,154,165,111,150,96,169,69,192,49,46,38,10,168,10,89,31,30,40,223,80,98,149,13,156,26,91,90,47,14,181,27,48,108,230,219,234,176,115,214,218,91,141,236,170,44,166,45>>
ASSUME BLAKE2B(20,<<107,107,107,107,107>>,MSG17) = <<102,166,101,243,15,94,208,233,26,188,211,31,80,6,217,13,152,38,81,51>>
ASSUME BLAKE2B(64,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63>>,MSG17) = <<123,192,208,205,7,213,52,18,86,25,165,105,231,149,199,91,173,28,57,41,226,62,129,190,194,15,138,144,27,121,151,38,65,46,55,168,68,38,177,52,13,16,218,109,28,147,43,255,201,43,106,105,246,175,112,120,86,120,37,126,59,41,52,147>>
ASSUME BLAKE2S(1,<<>>,MSG17) = <<246>>
ASSUME BLAKE2S(32,<<>>,MSG17) = <<75,104,73,196,130,225,73,30,97,59,82,33,241,119,21,112,162,0,157,89,186,9,62,42,108,74,48,1,2,141,192,30>>
ASSUME BLAKE2S(20,<<107,107,107,107,107>>,MSG17) = <<160,100,55,216,67,15,32,28,24,238,199,25,44,116,77,189,51,100,150,79>>
ASSUME BLAKE2S(32,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31>>,MSG17) = <<234,63,177,221,126,62,125,15,24,234,171,163,88,128,187,226,162,200,165,98,169,157,138,183,29,71,19,252,129,63,143,169>>
ASSUME SHA1(MSG18) = <<9,13,200,97,12,118,31,226,85,201,218,88,178,48,47,43,183,108,131,182>>
ASSUME SHA224(MSG18) = <<98,197,149,188,71,77,228,72,244,8,93,41,66,32,158,112,124,205,25,25,85,181,206,14,246,8,113,3>>
ASSUME SHA256(MSG18) = <<1,164,183,150,86,41,227,162,236,10,90,187,4,225,41,197,75,56,76,99,136,102,110,92,6,8,164,85,121,165,158,24>>
ASSUME SHA384(MSG18) = <<23,162,8,152,250,24,78,182,59,173,32,111,221,1,21,34,135,70,101,181,33,88,208,210,33,138,84,201,51,31,174,169,54,142,189,232,1,159,36,210,232,78,252,20,193,37,202,170>>
ASSUME SHA512(MSG18) = <<82,3,34,121,109,148,138,148,122,208,244,245,151,129,123,199,243,97,95,247,52,139,62,47,24,168,215,200,234,3,156,117,47,128,197,147,17,241,46,101,220,62,133,249,255,250,67,167,123,84,190,21,61,97,204,137,200,34,245,161,138,30,22,241>>
ASSUME MD5(MSG18) = <<0,166,53,31,123,18,51,62,172,221,102,149,40,184,114,33>>
ASSUME SHA3(224,MSG18) = <<159,134,233,65,159,180,182,88,192,81,202,53,170,162,220,167,28,100,121,123,230,175,9,203,180,102,174,93>>
ASSUME SHA3(256,MSG18) = <<70,17,153,194,236,156,190,241,70,154,88,127,180,192,92,31,185,212,181,187,172,37,152,23,224,200,115,49,189,163,12,90>>
ASSUME SHA3(384,MSG18) = <<130,38,130,120,214,169,34,250,91,174,92,162,9,124,51,212,26,11,235,135,195,150,136,12,150,51,105,94,86,187,175,194,59,71,190,102,38,58,57,190,223,193,251,242,61,193,95,207>>
ASSUME SHA3(512,MSG18) = <<198,184,144,142,123,96,240,158,211,143,250,240,255,157,111,62,221,83,206,49,64,7,111,201,71,189,57,98,199,156,100,216,69,216,11,72,246,59,7,109,215,244,240,195,96,235,149,45,201,64,201,158,208,154,111,189,234,187,81,3,91,24,228,29>>
ASSUME BLAKE2B(1,<<>>,MSG18) = <<22>>
ASSUME BLAKE2B(32,<<>>,MSG18) = <<239,197,10,160,148,80,82,250,224,202,82,248,90,165,91,190,99,218,191,10,232,223,209,179,22,102,253,124,192,160,49,57>>
ASSUME BLAKE2B(64,<<>>,MSG18) = <<146,164,131,41,115,33,14,82,132,2,223,185,54,192,162,161,26,127,184,140,71,165,236,36,122,232,219,10,199,142,9,51,245,0,17,206,185,29,125,40,6,181,133,17,59,49,78,39,148,254,38,224,61,149,135,9,18,169,108,134,2,255,36,184>>
ASSUME BLAKE2B(20,<<107,107,107,107,107>>,MSG18) = <<166,202,74,238,102,75,67,8,118,16,196,132,47,79,205,254,253,89,216,79>>
ASSUME BLAKE2B(64,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63>>,MSG18) = <<13,199,182,247,139,31,227,210,201,29,198,6,39,192,83,185,206,200,239,231,235,160,205,190,23,245,149,137,16,219,225,242,197,72,125,119,58,53,187,28,44,238,51,95,111,242,123,102,182,217,34,18,88,134,82,128,209,115,48,155,127,28,191,89>>
ASSUME BLAKE2S(1,<<>>,MSG18) = <<77>>
ASSUME BLAKE2S(32,<<>>,MSG18) = <<166,124,120,76,234,236,218,42,78,39,213,48,138,245,112,214,191,165,74,48,25,98,46,113,228,250,241,36,188,244,107,103>>
ASSUME BLAKE2S(20,<<107,107,107,107,107>>,MSG18) = <<141,51,123,221,216,27,229,140,117,228,67,222,103,40,29,226,164,247,248,16>>
ASSUME BLAKE2S(32,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31>>,MSG18) = <<0,246,18,65,137,128,71,40,146,164,213,126,90,192,48,194,109,13,228,192,145,101,74,138,160,252,118,115,86,48,116,185>>
ASSUME SHA1(MSG19) = <<137,43,103,60,163,198,150,171,19,171,138,171,60,243,171,251,195,170,235,59>>
ASSUME SHA224(MSG19) = <<103,230,212,71,135,45,109,229,240,165,57,21,172,78,136,182,15,8,137,94,51,248,69,53,0,213,189,48>>
ASSUME SHA256(MSG19) = <<44,126,24,201,66,239,6,91,82,106,45,78,85,70,40,55,73,205,61,223,181,29,143,199,31,66,113,115,99,104,95,70>>
ASSUME SHA384(MSG19) = <<141,235,131,83,95,163,93,47,73,60,108,54,149,177,5,123,25,35,45,47,83,26,13,57,141,43,149,132,19,133,90,161,89,75,107,204,160,221,203,210,74,152,19,48,167,255,28,193>>
ASSUME SHA512(MSG19) = <<204,163,192,39,96,70,239,159,40,151,189,252,62,195,48,247,127,73,89,145,75,20,98,189,88,27,35,45,219,62,154,169,138,207,95,90,43,33,199,244,157,46,67,114,29,170,97,162,181,206,230,175,96,82,223,235,118,110,102,221,176,209,113,156>>
ASSUME MD5(MSG19) = <<76,121,184,26,201,75,173,122,135,85,25,206,107,150,76,102>>
ASSUME SHA3(224,MSG19) = <<55,238,237,76,251,113,218,241,54,229,170,149,174,230,22,80,232,132,226,151,86,187,248,76,75,61,93,203>>
ASSUME SHA3(256,MSG19) = <<157,163,126,162,251,51,172,213,99,160,20,245,13,111,124,194,37,242,85,119,168,29,144,4,82,183,43,93,233,143,35,157>>
ASSUME SHA3(384,MSG19) = <<94,32,132,150,164,188,152,182,8,54,165,192,77,154,232,151,104,66,58,94,181,136,28,84,62,148,120,33,6,34,239,70,21,184,181,252,208,176,220,43,125,194,160,152,131,249,135,180>>
ASSUME SHA3(512,MSG19) = <<20,251,54,211,51,211,79,204,179,140,136,1,215,105,44,147,80,163,36,203,196,68,72,182,58,202,157,60,253,177,47,181,42,8,147,79,239,218,21,119,150,115,88,113,241,84,29,30,91,203,112,203,3,202,19,24,108,148,197,196,94,31,28,173>>
ASSUME BLAKE2B(1,<<>>,MSG19) = <<109>>
ASSUME BLAKE2B(32,<<>>,MSG19) = <<109,208,186,234,104,140,125,185,44,168,248,192,160,166,44,218,31,59,248,0,46,98,142,88,195,4,43,181,118,218,171,228>>
ASSUME BLAKE2B(64,<<>>,MSG19) = <<221,130,232,14,246,224,250,207,177,236,91,167,44,51,44,232,250,210,166,219,186,182,249,27,212,118,147,75,60,212,249,190,80,50,80,125,161,219,10,216,116,128,114,11,178,214,116,113,47,194,252,31,11,250,188,82,220,31,92,78,145,202,224,158>>
ASSUME BLAKE2B(20,<<107,107,107,107,107>>,MSG19) = <<174,15,62,88,15,12,36,86,231,221,141,57,17,125,77,229,128,20,222,84>>
ASSUME BLAKE2B(64,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63>>,MSG19) = <<14,52,167,31,167,150,1,54,105,112,83,35,128,236,56,215,254,143,59,100,30,67,167,67,2,178,178,106,136,100,155,249,252,25,219,162,141,176,90,149,175,17,44,244,139,243,95,252,33,72,16,137,49,199,70,218,61,215,107,92,86,31,81,54>>
ASSUME BLAKE2S(1,<<>>,MSG19) = <<207>>
ASSUME BLAKE2S(32,<<>>,MSG19) = <<70,194,21,245,234,153,91,231,7,122,229,185,224,239,28,40,178,17,31,194,19,208,134,125,220,143,27,51,147,98,245,252>>
ASSUME BLAKE2S(20,<<107,107,107,107,107>>,MSG19) = <<84,1,62,37,54,231,43,38,113,158,154,11,44,124,224,171,35,102,76,231>>
ASSUME BLAKE2S(32,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31>>,MSG19) = <<20,81,232,202,231,51,141,205,57,59,7,52,254,186,132,93,0,17,250,184,113,138,88,83,77,200,134,13,244,221,142,131>>
ASSUME SHA1(MSG20) = <<106,160,230,44,211,115,220,46,178,189,141,157,158,214,230,239,25,108,201,49>>
ASSUME SHA224(MSG20) = <<124,200,26,168,175,94,33,74,159,225,245,186,117,50,184,87,21,30,194,107,66,206,245,118,244,156,4,130>>
ASSUME SHA256(MSG20) = <<217,199,111,163,73,120,203,150,32,218,184,195,244,107,190,7,95,221,193,69,235,40,43,57,0,145,65,249,141,12,254,130>>
ASSUME SHA384(MSG20) = <<35,240,99,69,82,186,21,40,159,160,44,138,55,227,163,145,231,158,35,13,202,5,219,3,167,105,102,48,197,186,58,51,82,209,98,79,82,131,46,77,97,131,192,235,112,25,142,154>>
ASSUME SHA512(MSG20) = <<228,156,32,142,65,85,110,133,157,26,82,209,71,132,160,97,194,213,174,44,134,144,165,54,14,159,147,68,246,8,97,193,54,42,158,192,90,159,8,164,22,123,61,164,27,221,18,42,56,116,19,221,6,151,100,112,228,190,255,80,83,242,172,113>>
ASSUME MD5(MSG20) = <<212,54,215,103,254,216,61,184,158,172,199,14,214,203,216,57>>
ASSUME SHA3(224,MSG20) = <<124,48,90,230,33,25,98,239,68,6,123,108,121,136,113,207,102,223,43,239,193,28,166,170,109,167,180,36>>
ASSUME SHA3(256,MSG20) = <<85,109,244,23,90,193,47,23,77,154,40,58,41,129,199,84,200,119,52,110,177,199,13,179,160,11,254,142,62,243,252,180>>
ASSUME SHA3(384,MSG20) = <<209,65,169,204,241,117,92,126,200,214,0,244,38,136,170,252,2,117,199,43,64,43,185,162,69,102,37,236,123,209,135,82,87,200,8,47,56,58,236,179,55,111,210,149,57,189,152,161>>
ASSUME SHA3(512,MSG20) = <<1,212,236,24,24,109,59,168,111,203,147,95,74,65,118,192,78,127,100,76,199,15,24,101,225,40,105,103,122,157,89,160,110,174,208,60,70,79,148,234,125,26,233,122,105,19,108,106,233,50,94,190,235,130,206,10,99,216,238,195,187,233,202,78>>
ASSUME BLAKE2B(1,<<>>,MSG20) = <<240>>
ASSUME BLAKE2B(32,<<>>,MSG20) = <<217,62,187,156,128,47,86,48,171,34,81,111,216,43,108,33,188,139,213,81,213,49,52,155,113,95,4,110,209,30,216,113>>
ASSUME BLAKE2B(64,<<>>,MSG20) = <<145,1,156,85,133,132,152,2,73,202,67,236,238,210,126,25,241,195,194,65,97,185,62,237,30,238,42,106,119,79,96,191,138,129,180,55,80,135,11,238,22,152,254,172,156,83,54,174,77,92,132,46,126,173,21,155,243,145,99,135,232,222,217,174>>
ASSUME BLAKE2B(20,<<107,107,107,107,107>>,MSG20) = <<170,179,49,33,97,138,126,249,169,103,155,119,1,92,95,148,90,31,199,22>>
ASSUME BLAKE2B(64,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63>>,MSG20) = <<171,20,14,104,84,151,143,154,241,186,245,130,109,145,94,152,45,120,31,129,51,69,77,7,231,21,157,50,192,76,101,107,202,117,141,3,5,169,11,42,95,55,218,155,110,201,28,74,41,128,193,209,29,135,195,119,217,39,223,160,130,126,14,165>>
ASSUME BLAKE2S(1,<<>>,MSG20) = <<28>>
ASSUME BLAKE2S(32,<<>>,MSG20) = <<8,12,109,164,159,62,248,145,223,191,26,189,254,34,68,144,227,10,251,173,58,36,228,230,137,253,19,228,161,61,226,65>>
ASSUME BLAKE2S(20,<<107,107,107,107,107>>,MSG20) = <<209,141,141,62,222,245,229,198,167,213,153,188,190,216,47,36,25,157,228,199>>
ASSUME BLAKE2S(32,<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31>>,MSG20) = <<113,123,157,57,114,50,83,50,92,26,37,100,238,105,83,55,209,140,7,39,201,53,190,190,100,10,203,180,6,79,243,155>>
ASSUME RIPEMD160(MSG0) = <<156,17,133,165,197,233,252,84,97,40,8,151,126,232,245,72,178,37,141,49>>
ASSUME RIPEMD160(MSG1) = <<178,175,173,215,59,153,34,243,149,87,58,82,231,3,43,117,151,255,140,62>>
ASSUME RIPEMD160(MSG2) = <<65,152,216,143,117,88,58,60,27,29,191,24,80,30,175,249,118,105,174,99>>
ASSUME RIPEMD160(MSG3) = <<206,212,164,22,210,237,220,76,84,165,156,87,250,41,155,200,106,247,13,233>>
ASSUME RIPEMD160(MSG4) = <<88,19,48,118,77,207,170,91,190,77,229,134,1,170,86,168,56,204,88,215>>
ASSUME RIPEMD160(MSG5) = <<249,70,98,125,248,81,41,227,138,97,66,182,148,174,208,135,242,248,93,113>>
ASSUME RIPEMD160(MSG6) = <<96,73,252,24,172,178,186,2,5,209,47,191,46,188,87,98,128,49,210,140>>
ASSUME RIPEMD160(MSG7) = <<160,59,199,113,26,244,38,50,206,142,103,90,219,220,29,105,10,133,15,7>>
ASSUME RIPEMD160(MSG8) = <<83,37,68,244,186,27,109,53,162,132,197,47,95,30,197,58,170,72,197,37>>
ASSUME RIPEMD160(MSG9) = <<104,202,166,219,171,35,39,132,53,103,27,164,43,191,98,88,49,6,54,230>>
ASSUME RIPEMD160(MSG10) = <<34,217,212,242,166,54,139,88,20,82,2,233,255,161,71,159,10,19,253,17>>
ASSUME RIPEMD160(MSG11) = <<12,141,47,208,54,39,154,146,111,246,164,229,26,44,10,166,226,247,48,111>>
ASSUME RIPEMD160(MSG12) = <<6,18,182,41,221,90,237,189,96,141,246,55,130,186,194,33,182,35,54,223>>
ASSUME RIPEMD160(MSG13) = <<35,253,254,193,98,91,36,24,36,69,217,169,38,67,178,9,38,215,117,83>>
ASSUME RIPEMD160(MSG14) = <<208,246,147,147,114,46,235,111,220,155,160,42,69,143,69,181,238,107,218,4>>
ASSUME RIPEMD160(MSG15) = <<73,107,81,165,108,181,181,89,223,88,62,89,128,39,122,50,155,182,234,75>>
ASSUME RIPEMD160(MSG16) = <<67,242,251,246,177,6,150,246,40,145,202,168,151,196,143,190,255,35,33,203>>
ASSUME RIPEMD160(MSG17) = <<158,250,146,118,190,22,182,17,154,113,146,35,205,179,199,245,218,124,242,86>>
ASSUME RIPEMD160(MSG18) = <<42,184,241,19,35,193,122,184,185,26,101,88,45,95,6,143,111,75,133,244>>
ASSUME RIPEMD160(MSG19) = <<240,186,246,89,240,62,248,58,96,242,133,113,48,21,223,171,33,168,46,81>>
ASSUME RIPEMD160(MSG20) = <<123,217,15,90,5,199,215,229,163,200,101,180,91,135,217,15,155,68,42,246>>
ASSUME HMAC("sha1",<<>>,MSG9) = <<52,74,202,201,247,58,222,198,124,76,101,185,52,113,13,110,242,56,35,101>>
ASSUME HMAC("sha256",<<>>,MSG9) = <<116,7,99,166,125,0,43,249,36,214,24,176,245,3,137,56,92,169,189,239,69,57,43,242,191,139,115,80,66,4,229,66>>
ASSUME HMAC("sha384",<<>>,MSG9) = <<133,242,125,66,244,27,206,108,74,238,124,125,152,170,119,47,245,204,120,119,193,230,145,121,217,187,49,123,41,131,90,33,37,142,99,42,63,68,6,204,132,190,112,210,78,50,254,3>>
ASSUME HMAC("sha512",<<>>,MSG9) = <<243,159,80,177,148,90,95,236,81,109,47,179,32,83,237,247,6,114,41,157,90,83,70,90,97,60,85,185,49,205,12,177,186,120,206,223,2,99,112,17,84,246,131,201,192,21,62,2,41,113,227,202,58,50,90,175,140,69,158,59,109,144,146,63>>
ASSUME HMAC("md5",<<>>,MSG9) = <<177,137,168,138,134,3,52,215,36,98,140,47,51,54,22,167>>
ASSUME HMAC("sha1",<<5>>,MSG9) = <<13,82,21,0,124,145,113,232,128,254,248,160,235,164,175,100,131,106,54,111>>
ASSUME HMAC("sha256",<<5>>,MSG9) = <<99,158,42,9,207,169,114,196,107,119,71,215,151,204,2,168,201,54,102,188,95,37,142,215,114,186,185,31,66,188,23,4>>
ASSUME HMAC("sha384",<<5>>,MSG9) = <<59,125,161,227,167,90,43,162,35,101,67,222,191,217,165,255,12,131,144,35,82,166,73,23,130,76,190,154,231,14,211,8,241,100,86,35,125,245,83,104,109,168,252,237,61,5,117,79>>
ASSUME HMAC("sha512",<<5>>,MSG9) = <<4,165,86,44,217,63,111,183,52,41,50,25,73,177,164,165,233,183,185,169,204,21,20,111,226,15,159,146,214,34,127,31,250,106,101,186,65,46,55,70,3,34,128,168,231,97,53,107,206,6,66,211,33,245,162,84,114,133,215,196,7,157,77,83>>
ASSUME HMAC("md5",<<5>>,MSG9) = <<223,92,54,139,143,187,202,144,196,215,175,152,130,157,83,39>>
ASSUME HMAC("sha1",<<5,16,27,38,49,60,71,82,93,104,115,126,137,148,159,170,181,192,203,214,225,236,247,2,13,24,35,46,57,68,79,90,101,112,123,134,145,156,167,178,189,200,211,222,233,244,255,10,21,32,43,54,65,76,87,98,109,120,131,142,153,164,175>>,MSG9) = <<40,128,79,192,12,122,192,39,221,99,231,169,132,152,71,17,225,23,89,211>>
ASSUME HMAC("sha256",<<5,16,27,38,49,60,71,82,93,104,115,126,137,148,159,170,181,192,203,214,225,236,247,2,13,24,35,46,57,68,79,90,101,112,123,134,145,156,167,178,189,200,211,222,233,244,255,10,21,32,43,54,65,76,87,98,109,120,131,142,153,164,175>>,MSG9) = <<79,99,240,185,92,144,47,204,141,55,140,46,247,12,209,221,128,243,66,159,138,208,144,231,88,131,191,252,85,4,124,60>>
ASSUME HMAC("sha384",<<5,16,27,38,49,60,71,82,93,104,115,126,137,148,159,170,181,192,203,214,225,236,247,2,13,24,35,46,57,68,79,90,101,112,123,134,145,156,167,178,189,200,211,222,233,244,255,10,21,32,43,54,65,76,87,98,109,120,131,142,153,164,175>>,MSG9) = <<191,232,127,136,253,112,128,15,157,93,84,88,155,251,193,171,64,207,220,253,217,228,80,69,112,130,158,36,168,171,27,122,112,186,231,12,106,93,117,122,61,37,36,216,116,235,1,83>>
ASSUME HMAC("sha512",<<5,16,27,38,49,60,71,82,93,104,115,126,137,148,159,170,181,192,203,214,225,236,247,2,13,24,35,46,57,68,79,90,101,112,123,134,145,156,167,178,189,200,211,222,233,244,255,10,21,32,43,54,65,76,87,98,109,120,131,142,153,164,175>>,MSG9) = <<6,13,97,83,237,26,165,241,200,194,241,69,44,4,78,165,49,248,122,244,154,103,198,193,113,95,36,193,128,175,107,69,110,205,27,25,73,92,217,158,56,116,44,71,115,177,115,195,61,26,212,107,223,202,50,7,242,31,98,165,211,45,224,167>>
ASSUME HMAC("md5",<<5,16,27,38,49,60,71,82,93,104,115,126,137,148,159,170,181,192,203,214,225,236,247,2,13,24,35,46,57,68,79,90,101,112,123,134,145,156,167,178,189,200,211,222,233,244,255,10,21,32,43,54,65,76,87,98,109,120,131,142,153,164,175>>,MSG9) = <<60,22,204,242,10,201,4,171,30,58,181,167,133,136,249,255>>
ASSUME HMAC("sha1",<<5,16,27,38,49,60,71,82,93,104,115,126,137,148,159,170,181,192,203,214,225,236,247,2,13,24,35,46,57,68,79,90,101,112,123,134,145,156,167,178,189,200,211,222,233,244,255,10,21,32,43,54,65,76,87,98,109,120,131,142,153,164,175,186>>,MSG9) = <<14,25,55,140,68,227,224,125,158,177,235,126,65,183,110,28,106,65,42,75>>
ASSUME HMAC("sha256",<<5,16,27,38,49,60,71,82,93,104,115,126,137,148,159,170,181,192,203,214,225,236,247,2,13,24,35,46,57,68,79,90,101,112,123,134,145,156,167,178,189,200,211,222,233,244,255,10,21,32,43,54,65,76,87,98,109,120,131,142,153,164,175,186>>,MSG9) = <<15,40,64,161,53,154,249,151,107,154,80,235,24,171,210,194,189,159,120,208,230,114,144,127,253,152,144,231,217,238,204,149>>
ASSUME HMAC("sha384",<<5,16,27,38,49,60,71,82,93,104,115,126,137,148,159,170,181,192,203,214,225,236,247,2,13,24,35,46,57,68,79,90,101,112,123,134,145,156,167,178,189,200,211,222,233,244,255,10,21,32,43,54,65,76,87,98,109,120,131,142,153,164,175,186>>,MSG9) = <<27,192,0,61,189,141,75,231,92,200,224,101,54,48,178,163,205,44,18,42,30,237,202,15,19,214,104,151,138,251,11,92,136,113,156,193,156,200,235,61,91,149,100,91,156,135,115,140>>
ASSUME HMAC("sha512",<<5,16,27,38,49,60,71,82,93,104,115,126,137,148,159,170,181,192,203,214,225,236,247,2,13,24,35,46,57,68,79,90,101,112,123,134,145,156,167,178,189,200,211,222,233,244,255,10,21,32,43,54,65,76,87,98,109,120,131,142,153,164,175,186>>,MSG9) = <<199,53,92,240,102,69,208,48,120,3,145,85,73,158,239,73,42,130,85,215,164,95,212,37,88,136,118,44,77,28,225,133,233,97,154,161,70,110,175,98,186,123,141,39,66,242,114,154,174,224,188,133,184,200,252,96,61,73,234,162,117,76,23,110>>
ASSUME HMAC("md5",<<5,16,27,38,49,60,71,82,93,104,115,126,137,148,159,170,181,192,203,214,225,236,247,2,13,24,35,46,57,68,79,90,101,112,123,134,145,156,167,178,189,200,211,222,233,244,255,10,21,32,43,54,65,76,87,98,109,120,131,142,153,164,175,186>>,MSG9) = <<57,191,195,147,136,214,2,51,45,50,192,70,137,19,145,186>>
ASSUME HMAC("sha1",<<5,16,27,38,49,60,71,82,93,104,115,126,137,148,159,170,181,192,203,214,225,236,247,2,13,24,35,46,57,68,79,90,101,112,123,134,145,156,167,178,189,200,211,222,233,244,255,10,21,32,43,54,65,76,87,98,109,120,131,142,153,164,175,186,197>>,MSG9) = <<47,171,42,251,196,244,94,126,101,241,229,185,70,138,46,156,26,175,211,32>>
ASSUME HMAC("sha256",<<5,16,27,38,49,60,71,82,93,104,115,126,137,148,159,170,181,192,203,214,225,236,247,2,13,24,35,46,57,68,79,90,101,112,123,134,145,156,167,178,189,200,211,222,233,244,255,10,21,32,43,54,65,76,87,98,109,120,131,142,153,164,175,186,197>>,MSG9) = <<65,180,142,76,63,116,34,135,91,248,36,160,152,173,69,50,137,130,15,49,167,240,146,181,81,177,211,92,100,218,61,243>>
ASSUME HMAC("sha384",<<5,16,27,38,49,60,71,82,93,104,115,126,137,148,159,170,181,192,203,214,225,236,247,2,13,24,35,46,57,68,79,90,101,112,123,134,145,156,167,178,189,200,211,222,233,244,255,10,21,32,43,54,65,76,87,98,109,120,131,142,153,164,175,186,197>>,MSG9) = <<214,44,98,10,83,14,82,204,254,38,206,96,184,99,69,199,133,41,167,226,200,197,179,217,49,195,183,64,17,158,94,126,250,87,174,142,251,239,206,210,116,214,31,63,176,165,46,114>>
ASSUME HMAC("sha512",<<5,16,27,38,49,60,71,82,93,104,115,126,137,148,159,170,181,192,203,214,225,236,247,2,13,24,35,46,57,68,79,90,101,112,123,134,145,156,167,178,189,200,211,222,233,244,255,10,21,32,43,54,65,76,87,98,109,120,131,142,153,164,175,186,197>>,MSG9) = <<42,45,98,238,212,83,36,56,11,60,18,146,183,232,82,199,51,17,11,33,239,204,136,97,108,189,61,250,93,217,141,3,179,233,82,19,98,226,24,163,154,131,250,56,220,134,38,66,241,106,71,231,44,136,230,58,33,81,168,9,94,250,29,81>>
ASSUME HMAC("md5",<<5,16,27,38,49,60,71,82,93,104,115,126,137,148,159,170,181,192,203,214,225,236,247,2,13,24,35,46,57,68,79,90,101,112,123,134,145,156,167,178,189,200,211,222,233,244,255,10,21,32,43,54,65,76,87,98,109,120,131,142,153,164,175,186,197>>,MSG9) = <<19,144,111,229,239,25,202,69,45,127,249,201,140,12,126,136>>
ASSUME HMAC("sha1",<<5,16,27,38,49,60,71,82,93,104,115,126,137,148,159,170,181,192,203,214,225,236,247,2,13,24,35,46,57,68,79,90,101,112,123,134,145,156,167,178,189,200,211,222,233,244,255,10,21,32,43,54,65,76,87,98,109,120,131,142,153,164,175,186,197,208,219,230,241,252,7,18,29,40,51,62,73,84,95,106,117,128,139,150,161,172,183,194,205,216,227,238,249,4,15,26,37,48,59,70,81,92,103,114,125,136,147,158,169,180,191,202,213,224,235,246,1,12,23,34,45,56,67,78,89,100,111>>,MSG9) = <<58,176,183,38,24,162,207,1,1,101,59,104,115,126,232,199,77,151,188,156>>
ASSUME HMAC("sha256",<<5,16,27,38,49,60,71,82,93,104,115,126,137,148,159,170,181,192,203,214,225,236,247,2,13,24,35,46,57,68,79,90,101,112,123,134,145,156,167,178,189,200,211,222,233,244,255,10,21,32,43,54,65,76,87,98,109,120,131,142,153,164,175,186,197,208,219,230,241,252,7,18,29,40,51,62,73,84,95,106,117,128,139,150,161,172,183,194,205,216,227,238,249,4,15,26,37,48,59,70,81,92,103,114,125,136,147,158,169,180,191,202,213,224,235,246,1,12,23,34,45,56,67,78,89,100,111>>,MSG9) = <<31,229,239,70,44,139,124,71,14,251,161,190,139,51,254,96,220,180,12,0,5,171,124,86,203,144,145,165,161,186,157,100>>
ASSUME HMAC("sha384",<<5,16,27,38,49,60,71,82,93,104,115,126,137,148,159,170,181,192,203,214,225,236,247,2,13,24,35,46,57,68,79,90,101,112,123,134,145,156,167,178,189,200,211,222,233,244,255,10,21,32,43,54,65,76,87,98,109,120,131,142,153,164,175,186,197,208,219,230,241,252,7,18,29,40,51,62,73,84,95,106,117,128,139,150,161,172,183,194,205,216,227,238,249,4,15,26,37,48,59,70,81,92,103,114,125,136,147,158,169,180,191,202,213,224,235,246,1,12,23,34,45,56,67,78,89,100,111>>,MSG9) = <<91,225,166,10,190,226,60,164,220,22,188,63,189,83,247,48,37,137,2,96,35,19,160,124,190,2,27,224,157,33,200,37,60,116,86,42,141,35,102,135,5,127,231,0,167,56,114,203>>
ASSUME HMAC("sha512",<<5,16,27,38,49,60,71,82,93,104,115,126,137,148,159,170,181,192,203,214,225,236,247,2,13,24,35,46,57,68,79,90,101,112,123,134,145,156,167,178,189,200,211,222,233,244,255,10,21,32,43,54,65,76,87,98,109,120,131,142,153,164,175,186,197,208,219,230,241,252,7,18,29,40,51,62,73,84,95,106,117,128,139,150,161,172,183,194,205,216,227,238,249,4,15,26,37,48,59,70,81,92,103,114,125,136,147,158,169,180,191,202,213,224,235,246,1,12,23,34,45,56,67,78,89,100,111>>,MSG9) = <<244,99,230,207,115,8,112,200,78,85,43,49,64,211,118,168,108,62,228,51,79,213,121,72,149,171,219,128,155,217,27,42,34,28,204,44,6,51,18,51,167,60,18,175,105,41,65,239,126,157,138,104,141,79,35,62,125,109,66,177,63,106,50,114>>
ASSUME HMAC("md5",<<5,16,27,38,49,60,71,82,93,104,115,126,137,148,159,170,181,192,203,214,225,236,247,2,13,24,35,46,57,68,79,90,101,112,123,134,145,156,167,178,189,200,211,222,233,244,255,10,21,32,43,54,65,76,87,98,109,120,131,142,153,164,175,186,197,208,219,230,241,252,7,18,29,40,51,62,73,84,95,106,117,128,139,150,161,172,183,194,205,216,227,238,249,4,15,26,37,48,59,70,81,92,103,114,125,136,147,158,169,180,191,202,213,224,235,246,1,12,23,34,45,56,67,78,89,100,111>>,MSG9) = <<103,98,179,246,182,222,33,172,73,143,255,118,77,32,104,231>>
ASSUME HMAC("sha1",<<5,16,27,38,49,60,71,82,93,104,115,126,137,148,159,170,181,192,203,214,225,236,247,2,13,24,35,46,57,68,79,90,101,112,123,134,145,156,167,178,189,200,211,222,233,244,255,10,21,32,43,54,65,76,87,98,109,120,131,142,153,164,175,186,197,208,219,230,241,252,7,18,29,40,51,62,73,84,95,106,117,128,139,150,161,172,183,194,205,216,227,238,249,4,15,26,37,48,59,70,81,92,103,114,125,136,147,158,169,180,191,202,213,224,235,246,1,12,23,34,45,56,67,78,89,100,111,122>>,MSG9) = <<190,202,111,28,35,38,110,111,107,104,97,81,62,156,185,7,139,32,139,1>>
ASSUME HMAC("sha256",<<5,16,27,38,49,60,71,82,93,104,115,126,137,148,159,170,181,192,203,214,225,236,247,2,13,24,35,46,57,68,79,90,101,112,123,134,145,156,167,178,189,200,211,222,233,244,255,10,21,32,43,54,65,76,87,98,109,120,131,142,153,164,175,186,197,208,219,230,241,252,7,18,29,40,51,62,73,84,95,106,117,128,139,150,161,172,183,194,205,216,227,238,249,4,15,26,37,48,59,70,81,92,103,114,125,136,147,158,169,180,191,202,213,224,235,246,1,12,23,34,45,56,67,78,89,100,111,122>>,MSG9) = <<76,226,139,43,92,151,63,57,150,39,214,167,211,25,60,84,100,80,223,47,180,135,104,240,109,137,150,122,6,51,20,207>>
ASSUME HMAC("sha384",<<5,16,27,38,49,60,71,82,93,104,115,126,137,148,159,170,181,192,203,214,225,236,247,2,13,24,35,46,57,68,79,90,101,112,123,134,145,156,167,178,189,200,211,222,233,244,255,10,21,32,43,54,65,76,87,98,109,120,131,142,153,164,175,186,197,208,219,230,241,252,7,18,29,40,51,62,73,84,95,106,117,128,139,150,161,172,183,194,205,216,227,238,249,4,15,26,37,48,59,70,81,92,103,114,125,136,147,158,169,180,191,202,213,224,235,246,1,12,23,34,45,56,67,78,89,100,111,122>>,MSG9) = <<90,62,165,70,17,161,179,129,129,132,141,160,100,168,3,88,31,55,5,146,54,14,47,193,98,6,193,255,101,163,252,49,159,6,143,213,124,129,161,4,167,63,48,145,167,234,231,75>>
ASSUME HMAC("sha512",<<5,16,27,38,49,60,71,82,93,104,115,126,137,148,159,170,181,192,203,214,225,236,247,2,13,24,35,46,57,68,79,90,101,112,123,134,145,156,167,178,189,200,211,222,233,244,255,10,21,32,43,54,65,76,87,98,109,120,131,142,153,164,175,186,197,208,219,230,241,252,7,18,29,40,51,62,73,84,95,106,117,128,139,150,161,172,183,194,205,216,227,238,249,4,15,26,37,48,59,70,81,92,103,114,125,136,147,158,169,180,191,202,213,224,235,246,1,12,23,34,45,56,67,78,89,100,111,122>>,MSG9) = <<234,24,137,110,210,25,155,155,243,179,211,15,95,40,134,250,110,163,230,158,242,190,3,52,95,39,100,222,194,229,69,163,49,19,246,81,175,149,57,189,249,222,124,135,189,165,207,135,254,201,175,159,25,244,65,23,168,41,220,169,249,156,201,106>>
ASSUME HMAC("md5",<<5,16,27,38,49,60,71,82,93,104,115,126,137,148,159,170,181,192,203,214,225,236,247,2,13,24,35,46,57,68,79,90,101,112,123,134,145,156,167,178,189,200,211,222,233,244,255,10,21,32,43,54,65,76,87,98,109,120,131,142,153,164,175,186,197,208,219,230,241,252,7,18,29,40,51,62,73,84,95,106,117,128,139,150,161,172,183,194,205,216,227,238,249,4,15,26,37,48,59,70,81,92,103,114,125,136,147,158,169,180,191,202,213,224,235,246,1,12,23,34,45,56,67,78,89,100,111,122>>,MSG9) = <<157,132,176,215,125,48,161,47,154,122,184,17,207,21,13,49>>
ASSUME HMAC("sha1",<<5,16,27,38,49,60,71,82,93,104,115,126,137,148,159,170,181,192,203,214,225,236,247,2,13,24,35,46,57,68,79,90,101,112,123,134,145,156,167,178,189,200,211,222,233,244,255,10,21,32,43,54,65,76,87,98,109,120,131,142,153,164,175,186,197,208,219,230,241,252,7,18,29,40,51,62,73,84,95,106,117,128,139,150,161,172,183,194,205,216,227,238,249,4,15,26,37,48,59,70,81,92,103,114,125,136,147,158,169,180,191,202,213,224,235,246,1,12,23,34,45,56,67,78,89,100,111,122,133>>,MSG9) = <<88,62,153,42,100,230,90,121,15,148,61,238,59,172,68,211,174,182,84,121>>
ASSUME HMAC("sha256",<<5,16,27,38,49,60,71,82,93,104,115,126,137,148,159,170,181,192,203,214,225,236,247,2,13,24,35,46,57,68,79,90,101,112,123,134,145,156,167,178,189,200,211,222,233,244,255,10,21,32,43,54,65,76,87,98,109,120,131,142,153,164,175,186,197,208,219,230,241,252,7,18,29,40,51,62,73,84,95,106,117,128,139,150,161,172,183,194,205,216,227,238,249,4,15,26,37,48,59,70,81,92,103,114,125,136,147,158,169,180,191,202,213,224,235,246,1,12,23,34,45,56,67,78,89,100,111,122,133>>,MSG9) = <<15,95,76,39,236,165,0,72,148,15,142,21,87,109,35,140,134,167,155,130,149,88,26,89,221,168,220,201,5,189,12,187>>
ASSUME HMAC("sha384",<<5,16,27,38,49,60,71,82,93,104,115,126,137,148,159,170,181,192,203,214,225,236,247,2,13,24,35,46,57,68,79,90,101,112,123,134,145,156,167,178,189,200,211,222,233,244,255,10,21,32,43,54,65,76,87,98,109,120,131,142,153,164,175,186,197,208,219,230,241,252,7,18,29,40,51,62,73,84,95,106,117,128,139,150,161,172,183,194,205,216,227,238,249,4,15,26,37,48,59,70,81,92,103,114,125,136,147,158,169,180,191,202,213,224,235,246,1,12,23,34,45,56,67,78,89,100,111,122,133>>,MSG9) = <<160,200,27,137,194,97,68,230,250,169,45,51,159,35,135,78,211,96,224,153,75,110,88,62,189,227,199,164,19,121,163,13,116,46,215,26,250,103,168,116,189,179,164,211,199,255,87,76>>
ASSUME HMAC("sha512",<<5,16,27,38,49,60,71,82,93,104,115,126,137,148,159,170,181,192,203,214,225,236,247,2,13,24,35,46,57,68,79,90,101,112,123,134,145,156,167,178,189,200,211,222,233,244,255,10,21,32,43,54,65,76,87,98,109,120,131,142,153,164,175,186,197,208,219,230,241,252,7,18,29,40,51,62,73,84,95,106,117,128,139,150,161,172,183,194,205,216,227,238,249,4,15,26,37,48,59,70,81,92,103,114,125,136,147,158,169,180,191,202,213,224,235,246,1,12,23,34,45,56,67,78,89,100,111,122,133>>,MSG9) = <<167,47,9,0,131,214,184,26,82,26,246,152,18,57,126,67,6,202,223,14,40,199,70,196,187,149,231,207,105,86,242,166,134,183,60,9,230,39,31,234,120,28,136,74,96,54,124,103,34,155,227,156,39,229,245,5,110,221,150,242,25,142,137,226>>
ASSUME HMAC("md5",<<5,16,27,38,49,60,71,82,93,104,115,126,137,148,159,170,181,192,203,214,225,236,247,2,13,24,35,46,57,68,79,90,101,112,123,134,145,156,167,178,189,200,211,222,233,244,255,10,21,32,43,54,65,76,87,98,109,120,131,142,153,164,175,186,197,208,219,230,241,252,7,18,29,40,51,62,73,84,95,106,117,128,139,150,161,172,183,194,205,216,227,238,249,4,15,26,37,48,59,70,81,92,103,114,125,136,147,158,169,180,191,202,213,224,235,246,1,12,23,34,45,56,67,78,89,100,111,122,133>>,MSG9) = <<32,233,39,102,210,149,36,185,140,182,68,70,83,119,228,209>>
ASSUME HMAC("sha1",<<5,16,27,38,49,60,71,82,93,104,115,126,137,148,159,170,181,192,203,214,225,236,247,2,13,24,35,46,57,68,79,90,101,112,123,134,145,156,167,178,189,200,211,222,233,244,255,10,21,32,43,54,65,76,87,98,109,120,131,142,153,164,175,186,197,208,219,230,241,252,7,18,29,40,51,62,73,84,95,106,117,128,139,150,161,172,183,194,205,216,227,238,249,4,15,26,37,48,59,70,81,92,103,114,125,136,147,158,169,180,191,202,213,224,235,246,1,12,23,34,45,56,67,78,89,100,111,122,133,144,155,166,177,188,199,210,221,232,243,254,9,20,31,42,53,64,75,86,97,108,119,130,141,152,163,174,185,196,207,218,229,240,251,6,17,28,39,50,61,72,83,94,105,116,127,138,149,160,171,182,193,204,215,226,237,248,3,14,25,36,47,58,69,80,91,102,113,124,135,146>>,MSG9) = <<113,172,119,138,222,102,12,202,56,212,176,233,41,175,194,124,136,57,163,53>>
ASSUME HMAC("sha256",<<5,16,27,38,49,60,71,82,93,104,115,126,137,148,159,170,181,192,203,214,225,236,247,2,13,24,35,46,57,68,79,90,101,112,123,134,145,156,167,178,189,200,211,222,233,244,255,10,21,32,43,54,65,76,87,98,109,120,131,142,153,164,175,186,197,208,219,230,241,252,7,18,29,40,51,62,73,84,95,106,117,128,139,150,161,172,183,194,205,216,227,238,249,4,15,26,37,48,59,70,81,92,103,114,125,136,147,158,169,180,191,202,213,224,235,246,1,12,23,34,45,56,67,78,89,100,111,122,133,144,155,166,177,188,199,210,221,232,243,254,9,20,31,42,53,64,75,86,97,108,119,130,141,152,163,174,185,196,207,218,229,240,251,6,17,28,39,50,61,72,83,94,105,116,127,138,149,160,171,182,193,204,215,226,237,248,3,14,25,36,47,58,69,80,91,102,113,124,135,146>>,MSG9) = <<29,231,119,36,87,108,234,120,184,235,108,90,42,211,5,110,159,61,137,220,45,169,76,227,46,157,174,139,31,165,24,28>>
ASSUME HMAC("sha384",<<5,16,27,38,49,60,71,82,93,104,115,126,137,148,159,170,181,192,203,214,225,236,247,2,13,24,35,46,57,68,79,90,101,112,123,134,145,156,167,178,189,200,211,222,233,244,255,10,21,32,43,54,65,76,87,98,109,120,131,142,153,164,175,186,197,208,219,230,241,252,7,18,29,40,51,62,73,84,95,106,117,128,139,150,161,172,183,194,205,216,227,238,249,4,15,26,37,48,59,70,81,92,103,114,125,136,147,158,169,180,191,202,213,224,235,246,1,12,23,34,45,56,67,78,89,100,111,122,133,144,155,166,177,188,199,210,221,232,243,254,9,20,31,42,53,64,75,86,97,108,119,130,141,152,163,174,185,196,207,218,229,240,251,6,17,28,39,50,61,72,83,94,105,116,127,138,149,160,171,182,193,204,215,226,237,248,3,14,25,36,47,58,69,80,91,102,113,124,135,146>>,MSG9) = <<25,120,65,39,111,118,171,182,234,171,56,234,161,201,229,97,153,88,125,182,184,35,43,136,226,3,8,64,230,225,189,197,240,100,246,195,186,25,118,26,122,86,35,36,143,204,41,91>>
ASSUME HMAC("sha512",<<5,16,27,38,49,60,71,82,93,104,115,126,137,148,159,170,181,192,203,214,225,236,247,2,13,24,35,46,57,68,79,90,101,112,123,134,145,156,167,178,189,200,211,222,233,244,255,10,21,32,43,54,65,76,87,98,109,120,131,142,153,164,175,186,197,208,219,230,241,252,7,18,29,40,51,62,73,84,95,106,117,128,139,150,161,172,183,194,205,216,227,238,249,4,15,26,37,48,59,70,81,92,103,114,125,136,147,158,169,180,191,202,213,224,235,246,1,12,23,34,45,56,67,78,89,100,111,122,133,144,155,166,177,188,199,210,221,232,243,254,9,20,31,42,53,64,75,86,97,108,119,130,141,152,163,174,185,196,207,218,229,240,251,6,17,28,39,50,61,72,83,94,105,116,127,138,149,160,171,182,193,204,215,226,237,248,3,14,25,36,47,58,69,80,91,102,113,124,135,146>>,MSG9) = <<216,189,137,201,140,210,162,245,146,139,158,54,255,150,91,194,18,21,220,98,190,25,57,103,91,184,87,29,149,178,88,164,196,179,198,169,72,38,253,55,240,101,236,219,131,199,1,172,137,240,225,209,234,3,143,47,69,124,216,141,88,235,197,74>>
ASSUME HMAC("md5",<<5,16,27,38,49,60,71,82,93,104,115,126,137,148,159,170,181,192,203,214,225,236,247,2,13,24,35,46,57,68,79,90,101,112,123,134,145,156,167,178,189,200,211,222,233,244,255,10,21,32,43,54,65,76,87,98,109,120,131,142,153,164,175,186,197,208,219,230,241,252,7,18,29,40,51,62,73,84,95,106,117,128,139,150,161,172,183,194,205,216,227,238,249,4,15,26,37,48,59,70,81,92,103,114,125,136,147,158,169,180,191,202,213,224,235,246,1,12,23,34,45,56,67,78,89,100,111,122,133,144,155,166,177,188,199,210,221,232,243,254,9,20,31,42,53,64,75,86,97,108,119,130,141,152,163,174,185,196,207,218,229,240,251,6,17,28,39,50,61,72,83,94,105,116,127,138,149,160,171,182,193,204,215,226,237,248,3,14,25,36,47,58,69,80,91,102,113,124,135,146>>,MSG9) = <<33,139,128,88,220,66,194,157,45,93,226,135,60,119,89,231>>
ASSUME AESEnc(AESKey(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>),<<7,38,69,100,131,162,193,224,255,30,61,92,123,154,185,216>>) = <<80,229,44,89,245,28,34,33,43,249,247,194,92,75,19,173>>
ASSUME AESDec(AESKey(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>),<<80,229,44,89,245,28,34,33,43,249,247,194,92,75,19,173>>) = <<7,38,69,100,131,162,193,224,255,30,61,92,123,154,185,216>>
ASSUME AESEnc(AESKey(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>),<<247,22,53,84,115,146,177,208,239,14,45,76,107,138,169,200>>) = <<53,47,201,136,88,183,79,39,31,45,139,13,106,137,174,34>>
ASSUME AESDec(AESKey(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>),<<53,47,201,136,88,183,79,39,31,45,139,13,106,137,174,34>>) = <<247,22,53,84,115,146,177,208,239,14,45,76,107,138,169,200>>
ASSUME AESEnc(AESKey(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>),<<231,6,37,68,99,130,161,192,223,254,29,60,91,122,153,184>>) = <<118,100,218,85,232,220,149,112,185,101,138,108,192,238,18,6>>
ASSUME AESDec(AESKey(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>),<<118,100,218,85,232,220,149,112,185,101,138,108,192,238,18,6>>) = <<231,6,37,68,99,130,161,192,223,254,29,60,91,122,153,184>>
ASSUME AESEnc(AESKey(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>),<<215,246,21,52,83,114,145,176,207,238,13,44,75,106,137,168>>) = <<37,157,130,182,198,184,129,97,187,120,220,44,217,170,57,186>>
ASSUME AESDec(AESKey(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>),<<37,157,130,182,198,184,129,97,187,120,220,44,217,170,57,186>>) = <<215,246,21,52,83,114,145,176,207,238,13,44,75,106,137,168>>
ASSUME AESEnc(AESKey(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156>>),<<7,38,69,100,131,162,193,224,255,30,61,92,123,154,185,216>>) = <<144,107,22,12,29,183,7,57,58,26,188,230,170,47,164,146>>
ASSUME AESDec(AESKey(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156>>),<<144,107,22,12,29,183,7,57,58,26,188,230,170,47,164,146>>) = <<7,38,69,100,131,162,193,224,255,30,61,92,123,154,185,216>>
ASSUME AESEnc(AESKey(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156>>),<<247,22,53,84,115,146,177,208,239,14,45,76,107,138,169,200>>) = <<147,245,87,135,113,53,237,253,154,233,86,145,192,157,250,248>>
ASSUME AESDec(AESKey(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156>>),<<147,245,87,135,113,53,237,253,154,233,86,145,192,157,250,248>>) = <<247,22,53,84,115,146,177,208,239,14,45,76,107,138,169,200>>
ASSUME AESEnc(AESKey(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156>>),<<231,6,37,68,99,130,161,192,223,254,29,60,91,122,153,184>>) = <<66,84,36,178,57,1,134,38,172,119,79,214,203,4,110,69>>
ASSUME AESDec(AESKey(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156>>),<<66,84,36,178,57,1,134,38,172,119,79,214,203,4,110,69>>) = <<231,6,37,68,99,130,161,192,223,254,29,60,91,122,153,184>>
ASSUME AESEnc(AESKey(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156>>),<<215,246,21,52,83,114,145,176,207,238,13,44,75,106,137,168>>) = <<56,253,226,140,71,54,255,192,13,132,150,19,4,200,192,126>>
ASSUME AESDec(AESKey(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156>>),<<56,253,226,140,71,54,255,192,13,132,150,19,4,200,192,126>>) = <<215,246,21,52,83,114,145,176,207,238,13,44,75,106,137,168>>
ASSUME AESEnc(AESKey(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156,185,214,243,16,45,74,103,132>>),<<7,38,69,100,131,162,193,224,255,30,61,92,123,154,185,216>>) = <<112,212,217,235,198,252,178,116,127,100,160,185,179,200,128,203>>
ASSUME AESDec(AESKey(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156,185,214,243,16,45,74,103,132>>),<<112,212,217,235,198,252,178,116,127,100,160,185,179,200,128,203>>) = <<7,38,69,100,131,162,193,224,255,30,61,92,123,154,185,216>>
ASSUME AESEnc(AESKey(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156,185,214,243,16,45,74,103,132>>),<<247,22,53,84,115,146,177,208,239,14,45,76,107,138,169,200>>) = <<238,247,168,108,168,189,217,126,39,5,147,78,102,114,26,238>>
ASSUME AESDec(AESKey(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156,185,214,243,16,45,74,103,132>>),<<238,247,168,108,168,189,217,126,39,5,147,78,102,114,26,238>>) = <<247,22,53,84,115,146,177,208,239,14,45,76,107,138,169,200>>
ASSUME AESEnc(AESKey(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156,185,214,243,16,45,74,103,132>>),<<231,6,37,68,99,130,161,192,223,254,29,60,91,122,153,184>>) = <<252,243,153,185,65,199,231,109,181,70,163,218,24,255,71,161>>
ASSUME AESDec(AESKey(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156,185,214,243,16,45,74,103,132>>),<<252,243,153,185,65,199,231,109,181,70,163,218,24,255,71,161>>) = <<231,6,37,68,99,130,161,192,223,254,29,60,91,122,153,184>>
ASSUME AESEnc(AESKey(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156,185,214,243,16,45,74,103,132>>),<<215,246,21,52,83,114,145,176,207,238,13,44,75,106,137,168>>) = <<88,115,52,247,109,146,245,252,216,21,192,246,20,94,36,234>>
ASSUME AESDec(AESKey(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156,185,214,243,16,45,74,103,132>>),<<88,115,52,247,109,146,245,252,216,21,192,246,20,94,36,234>>) = <<215,246,21,52,83,114,145,176,207,238,13,44,75,106,137,168>>
ASSUME DESEnc(DESKey(<<1,30,59,88,117,146,175,204>>),<<7,38,69,100,131,162,193,224>>) = <<5,37,50,147,194,198,19,243>>
ASSUME DESDec(DESKey(<<1,30,59,88,117,146,175,204>>),<<5,37,50,147,194,198,19,243>>) = <<7,38,69,100,131,162,193,224>>
ASSUME DESEnc(DESKey(<<1,30,59,88,117,146,175,204>>),<<255,30,61,92,123,154,185,216>>) = <<29,156,196,169,63,116,221,122>>
ASSUME DESDec(DESKey(<<1,30,59,88,117,146,175,204>>),<<29,156,196,169,63,116,221,122>>) = <<255,30,61,92,123,154,185,216>>
ASSUME DESEnc(DESKey(<<1,30,59,88,117,146,175,204>>),<<247,22,53,84,115,146,177,208>>) = <<185,195,63,2,74,181,250,205>>
ASSUME DESDec(DESKey(<<1,30,59,88,117,146,175,204>>),<<185,195,63,2,74,181,250,205>>) = <<247,22,53,84,115,146,177,208>>
ASSUME DESEnc(DESKey(<<1,30,59,88,117,146,175,204>>),<<239,14,45,76,107,138,169,200>>) = <<14,121,69,105,88,93,234,36>>
ASSUME DESDec(DESKey(<<1,30,59,88,117,146,175,204>>),<<14,121,69,105,88,93,234,36>>) = <<239,14,45,76,107,138,169,200>>
ASSUME DESEnc(DESKey(<<1,30,59,88,117,146,175,204>>),<<231,6,37,68,99,130,161,192>>) = <<53,123,71,72,217,248,47,162>>
ASSUME DESDec(DESKey(<<1,30,59,88,117,146,175,204>>),<<53,123,71,72,217,248,47,162>>) = <<231,6,37,68,99,130,161,192>>
ASSUME DESEnc(DESKey(<<1,30,59,88,117,146,175,204>>),<<223,254,29,60,91,122,153,184>>) = <<24,122,68,108,245,14,244,147>>
ASSUME DESDec(DESKey(<<1,30,59,88,117,146,175,204>>),<<24,122,68,108,245,14,244,147>>) = <<223,254,29,60,91,122,153,184>>
ASSUME DESEnc(DESKey(<<1,30,59,88,117,146,175,204>>),<<215,246,21,52,83,114,145,176>>) = <<185,129,9,127,185,225,220,211>>
ASSUME DESDec(DESKey(<<1,30,59,88,117,146,175,204>>),<<185,129,9,127,185,225,220,211>>) = <<215,246,21,52,83,114,145,176>>
ASSUME DESEnc(DESKey(<<1,30,59,88,117,146,175,204>>),<<207,238,13,44,75,106,137,168>>) = <<180,15,224,25,213,6,125,74>>
ASSUME DESDec(DESKey(<<1,30,59,88,117,146,175,204>>),<<180,15,224,25,213,6,125,74>>) = <<207,238,13,44,75,106,137,168>>
ASSUME TDESEnc(TDESKey(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>),<<7,38,69,100,131,162,193,224>>) = <<118,80,219,141,215,147,185,162>>
ASSUME TDESDec(TDESKey(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>),<<118,80,219,141,215,147,185,162>>) = <<7,38,69,100,131,162,193,224>>
ASSUME TDESEnc(TDESKey(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>),<<255,30,61,92,123,154,185,216>>) = <<51,193,253,24,145,40,59,4>>
ASSUME TDESDec(TDESKey(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>),<<51,193,253,24,145,40,59,4>>) = <<255,30,61,92,123,154,185,216>>
ASSUME TDESEnc(TDESKey(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>),<<247,22,53,84,115,146,177,208>>) = <<167,60,193,140,140,18,219,70>>
ASSUME TDESDec(TDESKey(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>),<<167,60,193,140,140,18,219,70>>) = <<247,22,53,84,115,146,177,208>>
ASSUME TDESEnc(TDESKey(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156>>),<<7,38,69,100,131,162,193,224>>) = <<111,34,174,164,124,201,193,76>>
ASSUME TDESDec(TDESKey(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156>>),<<111,34,174,164,124,201,193,76>>) = <<7,38,69,100,131,162,193,224>>
ASSUME TDESEnc(TDESKey(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156>>),<<255,30,61,92,123,154,185,216>>) = <<59,192,82,66,48,88,3,239>>
ASSUME TDESDec(TDESKey(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156>>),<<59,192,82,66,48,88,3,239>>) = <<255,30,61,92,123,154,185,216>>
ASSUME TDESEnc(TDESKey(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156>>),<<247,22,53,84,115,146,177,208>>) = <<251,190,9,166,176,122,154,81>>
ASSUME TDESDec(TDESKey(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156>>),<<251,190,9,166,176,122,154,81>>) = <<247,22,53,84,115,146,177,208>>
BK == BFKey(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>)
ASSUME BFEnc(BK,<<7,38,69,100,131,162,193,224>>) = <<234,86,133,105,110,238,233,64>>
ASSUME BFDec(BK,<<234,86,133,105,110,238,233,64>>) = <<7,38,69,100,131,162,193,224>>
ASSUME BFEnc(BK,<<255,30,61,92,123,154,185,216>>) = <<232,198,144,163,108,17,192,224>>
ASSUME BFDec(BK,<<232,198,144,163,108,17,192,224>>) = <<255,30,61,92,123,154,185,216>>
ASSUME BFEnc(BK,<<247,22,53,84,115,146,177,208>>) = <<132,211,251,251,188,47,6,8>>
ASSUME BFDec(BK,<<132,211,251,251,188,47,6,8>>) = <<247,22,53,84,115,146,177,208>>
ASSUME BFEnc(BFKey(<<240,225,210,195>>),<<254,220,186,152,118,84,50,16>>) = <<190,30,99,148,8,100,15,5>>
ASSUME BFEnc(BFKey(<<240,225,210,195,180>>),<<254,220,186,152,118,84,50,16>>) = <<179,158,68,72,27,219,30,110>>
ASSUME BFEnc(BFKey(<<240,225,210,195,180,165,150,135,120,105,90,75,60,45,30,15,0,17,34,51,68,85,102,119>>),<<254,220,186,152,118,84,50,16>>) = <<5,4,75,98,250,82,208,128>>
ASSUME RC4Take(RC4Init(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>),300)[1] = <<74,177,175,236,216,17,209,214,30,73,167,120,112,73,95,162,231,60,145,177,153,8,1,139,33,217,180,172,146,194,68,222,157,185,247,201,102,147,143,94,96,149,0,105,171,221,145,206,145,241,16,178,160,10,129,145,41,234,32,155,74,222,129,49,23,235,104,76,6,177,88,182,94,243,245,81,88,195,215,84,42,46,111,79,2,244,183,15,59,215,137,244,174,109,219,150,14,238,231,117,236,148,221,190,246,117,24,222,237,164,88,198,234,80,62,200,124,79,48,107,101,231,38,113,136,43,121,98,75,230,43,237,225,194,129,32,69,76,205,137,246,166,212,222,173,179,146,2,159,237,102,15,176,238,57,163,11,254,240,53,211,87,232,106,138,144,58,61,208,12,122,151,142,216,84,168,135,176,141,214,195,129,77,158,201,67,53,64,207,159,65,233,72,1,136,64,91,236,241,2,110,198,230,96,94,4,36,247,170,169,72,166,5,155,185,240,190,180,1,65,148,96,45,19,223,149,160,245,174,42,141,220,177,209,202,212,86,134,13,54,229,84,115,215,66,14,121,122,84,113,27,206,242,134,71,10,104,241,146,198,6,114,30,64,16,174,101,240,54,9,10,148,7,37,239,75,78,13,189,204,246,233,73,184,18,13,45,18,11,122,115,99,113,231,85,64,98,29,11,27>>
ASSUME ChaTake([w |-> ChaInit(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156,185,214,243,16,45,74,103,132>>,<<100,101,102,103,104,105,106,107,108,109,110,111>>,<<0,0,0,0,0,0,0,0>>),iv12|->TRUE,ks|-><<>>],200)[1] = <<191,233,15,254,94,190,218,68,90,85,100,86,40,30,230,203,11,140,23,84,195,85,201,41,3,95,202,220,126,177,108,239,169,5,65,161,131,120,54,105,200,2,169,198,234,180,241,236,47,22,61,230,134,115,2,41,61,206,18,248,88,117,162,198,155,143,57,33,137,9,99,75,17,110,21,127,61,178,148,130,59,116,81,177,210,37,191,85,232,173,207,213,123,159,123,50,49,46,81,74,28,87,90,229,251,64,20,5,228,40,160,170,10,61,73,30,244,76,64,248,32,160,61,193,221,253,233,190,79,211,203,72,240,82,114,72,96,161,227,160,100,35,246,234,233,139,126,186,40,212,128,124,147,84,13,28,9,207,181,211,36,156,235,175,107,97,13,59,86,189,93,64,92,252,17,104,140,104,181,72,151,196,123,151,133,6,176,213,248,84,231,186,181,208,96,36,227,27,117,79>>
ASSUME ChaTake([w |-> ChaInit(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156,185,214,243,16,45,74,103,132>>,<<100,101,102,103,104,105,106,107,108,109,110,111>>,<<0,0,0,0,0,0,0,1>>),iv12|->TRUE,ks|-><<>>],200)[1] = <<155,143,57,33,137,9,99,75,17,110,21,127,61,178,148,130,59,116,81,177,210,37,191,85,232,173,207,213,123,159,123,50,49,46,81,74,28,87,90,229,251,64,20,5,228,40,160,170,10,61,73,30,244,76,64,248,32,160,61,193,221,253,233,190,79,211,203,72,240,82,114,72,96,161,227,160,100,35,246,234,233,139,126,186,40,212,128,124,147,84,13,28,9,207,181,211,36,156,235,175,107,97,13,59,86,189,93,64,92,252,17,104,140,104,181,72,151,196,123,151,133,6,176,213,248,84,231,186,181,208,96,36,227,27,117,79,55,5,117,129,200,198,250,181,110,173,210,5,62,157,225,210,64,15,209,133,27,242,188,141,40,212,61,10,13,98,70,5,178,4,93,77,115,190,248,84,9,3,30,177,78,124,142,52,156,245,207,78,104,8,71,186,148,228,146,96,119,137,238,152>>
ASSUME ChaTake([w |-> ChaInit(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156,185,214,243,16,45,74,103,132>>,<<100,101,102,103,104,105,106,107,108,109,110,111>>,<<0,0,0,0,0,0,0,7>>),iv12|->TRUE,ks|-><<>>],200)[1] = <<192,245,208,226,211,75,22,159,114,252,53,9,195,229,52,2,19,119,36,75,219,137,153,184,129,92,249,31,24,56,148,84,81,75,99,102,30,120,157,195,9,118,35,236,198,246,101,172,127,154,127,249,32,158,70,160,20,86,93,118,182,74,159,219,100,154,76,161,153,218,121,111,156,36,149,155,53,104,233,216,9,254,235,184,87,117,217,204,38,227,106,161,53,189,215,205,204,188,65,81,50,227,0,149,55,70,55,139,33,191,194,212,21,184,61,223,68,199,77,200,158,5,122,81,174,60,171,86,74,223,132,131,88,100,68,12,43,48,116,164,230,134,205,132,57,52,221,145,162,13,94,91,145,88,157,6,161,79,65,208,17,232,201,60,131,19,201,228,241,151,20,57,153,177,24,161,63,24,121,179,121,236,236,221,25,119,171,94,163,126,253,56,170,177,78,174,110,173,98,115>>
ASSUME ChaTake([w |-> ChaInit(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156,185,214,243,16,45,74,103,132>>,<<100,101,102,103,104,105,106,107>>,<<0,0,0,0,255,255,255,255>>),iv12|->FALSE,ks|-><<>>],64)[1] = <<90,77,48,179,99,55,198,246,93,37,190,253,30,47,24,143,119,116,10,105,228,42,72,86,87,60,119,208,1,194,40,139,39,113,15,105,42,6,104,70,181,94,198,157,207,185,165,211,142,186,62,73,162,188,113,53,240,195,0,114,87,221,241,236>>
ASSUME ChaTake([w |-> ChaInit(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156,185,214,243,16,45,74,103,132>>,<<100,101,102,103,104,105,106,107>>,<<0,0,0,0,255,255,255,255>>),iv12|->FALSE,ks|-><<>>],128)[1] = <<90,77,48,179,99,55,198,246,93,37,190,253,30,47,24,143,119,116,10,105,228,42,72,86,87,60,119,208,1,194,40,139,39,113,15,105,42,6,104,70,181,94,198,157,207,185,165,211,142,186,62,73,162,188,113,53,240,195,0,114,87,221,241,236,159,250,189,120,194,185,133,210,110,153,86,71,240,30,125,46,57,163,134,40,70,60,22,140,127,146,8,3,137,231,60,251,146,19,42,12,31,200,15,218,56,207,26,101,179,195,110,18,201,144,245,249,61,127,143,170,217,244,240,138,238,171,64,177>>
ASSUME Take(ChaTake([w |-> ChaInit(<<1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>,<<0,0,0,0,0,0,0,0>>,<<0,0,0,0,0,0,0,0>>),iv12|->FALSE,ks|-><<>>],64)[1],32) = <<174,86,6,13,4,245,181,151,137,127,242,175,19,136,219,206,255,90,42,73,32,51,93,193,122,60,177,177,177,15,190,112>>
ASSUME SIPHASH(8,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG0) = <<164,234,112,48,138,190,230,238>>
ASSUME SIPHASH(16,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG0) = <<25,205,209,164,91,162,43,36,245,50,27,120,21,183,34,85>>
ASSUME POLY1305(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156,185,214,243,16,45,74,103,132>>,MSG0) = <<209,238,11,40,69,98,127,156,185,214,243,16,45,74,103,132>>
ASSUME KECCAK(256,<<>>) = <<197,210,70,1,134,247,35,60,146,126,125,178,220,199,3,192,229,0,182,83,202,130,39,59,123,250,216,4,93,133,164,112>>
ASSUME SIPHASH(8,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG1) = <<158,114,169,210,218,90,141,19>>
ASSUME SIPHASH(16,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG1) = <<26,2,96,147,152,147,93,214,78,43,227,4,22,143,130,15>>
ASSUME POLY1305(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156,185,214,243,16,45,74,103,132>>,MSG1) = <<217,73,219,123,169,141,32,114,126,211,99,52,65,21,168,41>>
ASSUME MACAll("aes_cmac",[key|-><<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>],MSG1) = <<34,28,82,70,174,240,238,34,49,35,96,112,81,85,224,44>>
ASSUME KECCAK(256,<<>>) = <<197,210,70,1,134,247,35,60,146,126,125,178,220,199,3,192,229,0,182,83,202,130,39,59,123,250,216,4,93,133,164,112>>
ASSUME SIPHASH(8,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG2) = <<227,162,193,227,238,73,209,252>>
ASSUME SIPHASH(16,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG2) = <<227,151,5,125,135,51,171,139,143,26,166,93,165,167,141,237>>
ASSUME POLY1305(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156,185,214,243,16,45,74,103,132>>,MSG2) = <<245,113,0,143,254,104,3,204,43,131,23,205,156,118,17,249>>
ASSUME MACAll("aes_cmac",[key|-><<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>],MSG2) = <<92,222,111,220,157,227,46,58,92,106,233,1,72,144,82,135>>
ASSUME KECCAK(256,<<>>) = <<197,210,70,1,134,247,35,60,146,126,125,178,220,199,3,192,229,0,182,83,202,130,39,59,123,250,216,4,93,133,164,112>>
ASSUME SIPHASH(8,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG3) = <<69,253,173,68,229,167,146,253>>
ASSUME SIPHASH(16,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG3) = <<189,124,36,119,247,241,198,56,243,60,238,50,210,235,215,21>>
ASSUME POLY1305(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156,185,214,243,16,45,74,103,132>>,MSG3) = <<174,100,200,86,222,58,145,71,170,251,74,127,235,254,109,132>>
ASSUME MACAll("aes_cmac",[key|-><<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>],MSG3) = <<51,159,103,235,45,182,68,176,61,107,250,98,211,218,242,6>>
ASSUME KECCAK(256,<<>>) = <<197,210,70,1,134,247,35,60,146,126,125,178,220,199,3,192,229,0,182,83,202,130,39,59,123,250,216,4,93,133,164,112>>
ASSUME SIPHASH(8,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG4) = <<174,149,6,201,188,72,22,36>>
ASSUME SIPHASH(16,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG4) = <<96,28,252,60,235,133,189,177,50,128,4,248,243,95,222,92>>
ASSUME POLY1305(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156,185,214,243,16,45,74,103,132>>,MSG4) = <<250,148,10,176,85,120,62,211,5,90,188,231,80,105,155,79>>
ASSUME MACAll("aes_cmac",[key|-><<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>],MSG4) = <<128,109,197,206,75,130,132,214,12,175,39,126,60,72,185,30>>
ASSUME KECCAK(256,<<>>) = <<197,210,70,1,134,247,35,60,146,126,125,178,220,199,3,192,229,0,182,83,202,130,39,59,123,250,216,4,93,133,164,112>>
ASSUME SIPHASH(8,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG5) = <<46,66,133,71,29,100,210,4>>
ASSUME SIPHASH(16,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG5) = <<70,226,36,25,1,63,14,251,87,137,220,77,154,148,185,3>>
ASSUME POLY1305(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156,185,214,243,16,45,74,103,132>>,MSG5) = <<53,159,4,182,30,147,244,76,251,92,179,232,110,119,248,24>>
ASSUME MACAll("aes_cmac",[key|-><<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>],MSG5) = <<176,121,6,131,53,52,144,25,58,31,185,13,168,72,144,75>>
ASSUME KECCAK(256,<<>>) = <<197,210,70,1,134,247,35,60,146,126,125,178,220,199,3,192,229,0,182,83,202,130,39,59,123,250,216,4,93,133,164,112>>
ASSUME SIPHASH(8,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG6) = <<140,144,136,110,25,132,157,21>>
ASSUME SIPHASH(16,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG6) = <<230,34,48,114,179,220,0,173,137,254,47,89,201,21,97,129>>
ASSUME POLY1305(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156,185,214,243,16,45,74,103,132>>,MSG6) = <<92,127,210,50,41,90,101,190,43,33,255,105,91,32,231,221>>
ASSUME MACAll("aes_cmac",[key|-><<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>],MSG6) = <<11,179,239,207,148,180,48,66,196,210,13,94,5,91,111,70>>
ASSUME KECCAK(256,<<>>) = <<197,210,70,1,134,247,35,60,146,126,125,178,220,199,3,192,229,0,182,83,202,130,39,59,123,250,216,4,93,133,164,112>>
ASSUME SIPHASH(8,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG7) = <<11,86,21,128,202,85,53,53>>
ASSUME SIPHASH(16,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG7) = <<39,33,75,216,48,165,17,126,81,83,178,79,48,190,81,166>>
ASSUME POLY1305(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156,185,214,243,16,45,74,103,132>>,MSG7) = <<35,67,223,111,62,70,111,9,144,212,154,121,50,42,93,200>>
ASSUME MACAll("aes_cmac",[key|-><<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>],MSG7) = <<157,250,64,167,197,107,36,13,201,252,83,176,189,191,204,119>>
ASSUME KECCAK(256,<<>>) = <<197,210,70,1,134,247,35,60,146,126,125,178,220,199,3,192,229,0,182,83,202,130,39,59,123,250,216,4,93,133,164,112>>
ASSUME SIPHASH(8,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG8) = <<79,44,185,27,16,146,213,92>>
ASSUME SIPHASH(16,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG8) = <<15,156,219,93,101,61,226,154,31,220,142,40,64,180,144,168>>
ASSUME POLY1305(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156,185,214,243,16,45,74,103,132>>,MSG8) = <<102,242,96,12,233,1,53,134,3,238,175,96,162,133,159,209>>
ASSUME MACAll("aes_cmac",[key|-><<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>],MSG8) = <<72,154,120,75,82,21,59,223,248,25,69,59,190,36,158,38>>
ASSUME KECCAK(256,<<>>) = <<197,210,70,1,134,247,35,60,146,126,125,178,220,199,3,192,229,0,182,83,202,130,39,59,123,250,216,4,93,133,164,112>>
ASSUME SIPHASH(8,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG9) = <<25,203,11,159,190,2,212,178>>
ASSUME SIPHASH(16,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG9) = <<150,231,224,132,159,146,19,171,87,160,88,115,30,60,197,154>>
ASSUME POLY1305(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156,185,214,243,16,45,74,103,132>>,MSG9) = <<197,4,28,210,23,231,190,140,68,152,221,209,103,1,156,226>>
ASSUME MACAll("aes_cmac",[key|-><<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>],MSG9) = <<40,112,175,96,35,203,184,14,130,162,237,193,103,54,196,36>>
ASSUME KECCAK(256,<<>>) = <<197,210,70,1,134,247,35,60,146,126,125,178,220,199,3,192,229,0,182,83,202,130,39,59,123,250,216,4,93,133,164,112>>
ASSUME SIPHASH(8,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG10) = <<171,62,54,248,97,24,183,91>>
ASSUME SIPHASH(16,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG10) = <<193,130,22,9,85,52,69,92,16,29,0,153,169,43,86,98>>
ASSUME POLY1305(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156,185,214,243,16,45,74,103,132>>,MSG10) = <<165,41,100,113,109,212,33,132,214,228,113,208,164,109,119,117>>
ASSUME MACAll("aes_cmac",[key|-><<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>],MSG10) = <<108,107,218,98,161,114,95,143,64,112,194,128,114,164,155,232>>
ASSUME KECCAK(256,<<>>) = <<197,210,70,1,134,247,35,60,146,126,125,178,220,199,3,192,229,0,182,83,202,130,39,59,123,250,216,4,93,133,164,112>>
ASSUME SIPHASH(8,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG11) = <<71,50,176,239,208,125,60,39>>
ASSUME SIPHASH(16,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG11) = <<30,218,65,209,86,232,240,142,244,59,221,57,216,106,224,216>>
ASSUME POLY1305(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156,185,214,243,16,45,74,103,132>>,MSG11) = <<156,87,27,206,50,57,25,96,166,239,127,157,43,91,186,0>>
ASSUME MACAll("aes_cmac",[key|-><<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>],MSG11) = <<113,33,99,103,47,128,51,131,76,165,33,74,19,19,7,170>>
ASSUME KECCAK(256,<<>>) = <<197,210,70,1,134,247,35,60,146,126,125,178,220,199,3,192,229,0,182,83,202,130,39,59,123,250,216,4,93,133,164,112>>
ASSUME SIPHASH(8,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG12) = <<169,238,92,128,153,87,119,22>>
ASSUME SIPHASH(16,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG12) = <<242,15,196,31,146,140,179,25,74,197,45,111,63,255,134,155>>
ASSUME POLY1305(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156,185,214,243,16,45,74,103,132>>,MSG12) = <<99,190,86,8,121,34,147,77,174,193,192,94,219,173,57,132>>
ASSUME MACAll("aes_cmac",[key|-><<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>],MSG12) = <<79,72,20,114,10,156,83,117,176,128,199,96,181,137,69,121>>
ASSUME KECCAK(256,<<>>) = <<197,210,70,1,134,247,35,60,146,126,125,178,220,199,3,192,229,0,182,83,202,130,39,59,123,250,216,4,93,133,164,112>>
ASSUME SIPHASH(8,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG13) = <<234,7,94,237,80,69,230,39>>
ASSUME SIPHASH(16,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG13) = <<61,99,16,28,171,0,191,159,28,153,59,32,234,89,246,197>>
ASSUME POLY1305(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156,185,214,243,16,45,74,103,132>>,MSG13) = <<26,102,197,136,212,45,22,87,75,18,173,65,32,247,19,243>>
ASSUME MACAll("aes_cmac",[key|-><<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>],MSG13) = <<156,194,30,86,201,4,79,48,250,43,232,97,19,157,12,182>>
ASSUME KECCAK(256,<<>>) = <<197,210,70,1,134,247,35,60,146,126,125,178,220,199,3,192,229,0,182,83,202,130,39,59,123,250,216,4,93,133,164,112>>
ASSUME SIPHASH(8,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG14) = <<39,64,43,125,3,232,106,232>>
ASSUME SIPHASH(16,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG14) = <<13,240,16,114,192,229,151,101,94,165,0,248,169,248,149,13>>
ASSUME POLY1305(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156,185,214,243,16,45,74,103,132>>,MSG14) = <<163,185,79,45,50,244,244,222,244,173,203,215,181,23,217,80>>
ASSUME MACAll("aes_cmac",[key|-><<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>],MSG14) = <<63,160,114,229,25,224,90,1,79,179,186,195,255,167,148,58>>
ASSUME KECCAK(256,<<>>) = <<197,210,70,1,134,247,35,60,146,126,125,178,220,199,3,192,229,0,182,83,202,130,39,59,123,250,216,4,93,133,164,112>>
ASSUME SIPHASH(8,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG15) = <<83,202,81,222,110,14,110,226>>
ASSUME SIPHASH(16,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG15) = <<180,200,201,147,19,27,174,131,255,91,228,136,14,75,0,106>>
ASSUME POLY1305(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156,185,214,243,16,45,74,103,132>>,MSG15) = <<142,31,154,22,87,178,181,155,240,33,200,1,145,109,103,158>>
ASSUME MACAll("aes_cmac",[key|-><<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>],MSG15) = <<245,216,67,104,40,147,90,28,156,176,179,85,125,80,44,232>>
ASSUME KECCAK(256,<<>>) = <<197,210,70,1,134,247,35,60,146,126,125,178,220,199,3,192,229,0,182,83,202,130,39,59,123,250,216,4,93,133,164,112>>
ASSUME SIPHASH(8,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG16) = <<147,140,80,87,103,59,84,104>>
ASSUME SIPHASH(16,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG16) = <<249,165,183,56,32,254,154,250,239,43,182,236,99,107,255,156>>
ASSUME POLY1305(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156,185,214,243,16,45,74,103,132>>,MSG16) = <<96,135,50,98,229,69,161,132,180,239,217,55,231,73,138,133>>
ASSUME MACAll("aes_cmac",[key|-><<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>],MSG16) = <<178,140,125,80,131,87,128,82,3,244,77,81,125,128,142,5>>
ASSUME KECCAK(256,<<>>) = <<197,210,70,1,134,247,35,60,146,126,125,178,220,199,3,192,229,0,182,83,202,130,39,59,123,250,216,4,93,133,164,112>>
ASSUME SIPHASH(8,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG17) = <<102,91,20,206,31,217,161,9>>
ASSUME SIPHASH(16,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG17) = <<31,79,136,150,13,99,17,97,172,27,30,144,121,235,69,127>>
ASSUME POLY1305(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156,185,214,243,16,45,74,103,132>>,MSG17) = <<155,189,111,206,14,67,105,195,38,208,119,182,118,56,89,44>>
ASSUME MACAll("aes_cmac",[key|-><<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>],MSG17) = <<18,194,211,188,3,104,7,185,148,91,167,139,100,164,19,189>>
ASSUME KECCAK(256,<<>>) = <<197,210,70,1,134,247,35,60,146,126,125,178,220,199,3,192,229,0,182,83,202,130,39,59,123,250,216,4,93,133,164,112>>
ASSUME SIPHASH(8,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG18) = <<213,129,213,157,243,81,86,135>>
ASSUME SIPHASH(16,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG18) = <<184,29,59,106,107,248,226,150,230,110,98,99,105,38,112,176>>
ASSUME POLY1305(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156,185,214,243,16,45,74,103,132>>,MSG18) = <<202,120,43,125,108,48,211,151,245,201,203,199,16,98,91,34>>
ASSUME MACAll("aes_cmac",[key|-><<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>],MSG18) = <<118,129,14,224,210,140,239,254,219,77,25,248,228,252,201,20>>
ASSUME KECCAK(256,<<>>) = <<197,210,70,1,134,247,35,60,146,126,125,178,220,199,3,192,229,0,182,83,202,130,39,59,123,250,216,4,93,133,164,112>>
ASSUME SIPHASH(8,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG19) = <<74,20,163,94,88,191,219,72>>
ASSUME SIPHASH(16,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG19) = <<27,206,228,62,241,140,95,201,134,67,60,4,5,161,213,224>>
ASSUME POLY1305(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156,185,214,243,16,45,74,103,132>>,MSG19) = <<230,117,190,137,61,185,254,238,104,195,58,224,191,136,120,204>>
ASSUME MACAll("aes_cmac",[key|-><<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>],MSG19) = <<128,90,102,9,5,65,19,46,235,52,187,22,165,80,196,76>>
ASSUME KECCAK(256,<<>>) = <<197,210,70,1,134,247,35,60,146,126,125,178,220,199,3,192,229,0,182,83,202,130,39,59,123,250,216,4,93,133,164,112>>
ASSUME SIPHASH(8,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG20) = <<254,156,218,205,231,233,6,12>>
ASSUME SIPHASH(16,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG20) = <<240,143,202,56,181,91,110,41,203,8,193,226,223,86,101,240>>
ASSUME POLY1305(<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156,185,214,243,16,45,74,103,132>>,MSG20) = <<143,226,45,9,74,37,229,75,39,227,185,7,144,108,115,87>>
ASSUME MACAll("aes_cmac",[key|-><<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>],MSG20) = <<4,113,40,237,147,209,0,10,112,8,95,126,70,121,83,120>>
ASSUME KECCAK(256,<<>>) = <<197,210,70,1,134,247,35,60,146,126,125,178,220,199,3,192,229,0,182,83,202,130,39,59,123,250,216,4,93,133,164,112>>
ASSUME AEADAll("gcm","enc",<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,<<1,30,59,88,117,146,175,204,233,6,35,64>>,MSG3,<<>>).tag = <<88,225,174,213,12,222,252,254,92,180,77,115,220,135,220,37>>
ASSUME AEADAll("gcm","enc",<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,<<1>>,MSG3,<<>>).tag = <<18,93,160,152,119,238,243,215,65,65,89,189,7,118,226,189>>
ASSUME AEADAll("gcm","enc",<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG3,<<>>).tag = <<17,42,30,48,61,183,194,28,9,34,55,197,217,60,241,169>>
ASSUME AEADAll("gcm","enc",<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40>>,MSG3,<<>>).tag = <<78,103,240,15,59,151,1,11,89,232,242,17,114,59,137,171>>
ASSUME AEADAll("gcm","enc",<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156,185,214,243,16,45,74,103,132,161,190,219,248,21,50,79,108>>,MSG3,<<>>).tag = <<213,22,150,165,32,218,236,82,252,149,185,19,137,34,40,105>>
ASSUME AEADAll("gcm","enc",<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,<<1,30,59,88,117,146,175,204,233,6,35,64>>,MSG3,<<>>).tag = <<88,225,174,213,12,222,252,254,92,180,77,115,220,135,220,37>>
ASSUME AEADAll("gcm","enc",<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,<<1>>,MSG3,<<>>).tag = <<18,93,160,152,119,238,243,215,65,65,89,189,7,118,226,189>>
ASSUME AEADAll("gcm","enc",<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG3,<<>>).tag = <<17,42,30,48,61,183,194,28,9,34,55,197,217,60,241,169>>
ASSUME AEADAll("gcm","enc",<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40>>,MSG3,<<>>).tag = <<78,103,240,15,59,151,1,11,89,232,242,17,114,59,137,171>>
ASSUME AEADAll("gcm","enc",<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156,185,214,243,16,45,74,103,132,161,190,219,248,21,50,79,108>>,MSG3,<<>>).tag = <<213,22,150,165,32,218,236,82,252,149,185,19,137,34,40,105>>
ASSUME AEADAll("gcm","enc",<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,<<1,30,59,88,117,146,175,204,233,6,35,64>>,MSG3,<<>>).tag = <<88,225,174,213,12,222,252,254,92,180,77,115,220,135,220,37>>
ASSUME AEADAll("gcm","enc",<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,<<1>>,MSG3,<<>>).tag = <<18,93,160,152,119,238,243,215,65,65,89,189,7,118,226,189>>
ASSUME AEADAll("gcm","enc",<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,MSG3,<<>>).tag = <<17,42,30,48,61,183,194,28,9,34,55,197,217,60,241,169>>
ASSUME AEADAll("gcm","enc",<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40>>,MSG3,<<>>).tag = <<78,103,240,15,59,151,1,11,89,232,242,17,114,59,137,171>>
ASSUME AEADAll("gcm","enc",<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180>>,<<1,30,59,88,117,146,175,204,233,6,35,64,93,122,151,180,209,238,11,40,69,98,127,156,185,214,243,16,45,74,103,132,161,190,219,248,21,50,79,108>>,MSG3,<<>>).tag = <<213,22,150,165,32,218,236,82,252,149,185,19,137,34,40,105>>
ASSUME LET r == AEADAll("gcm","enc",<<254,255,233,146,134,101,115,28,109,106,143,148,103,48,131,8>>,<<202,254,186,190,250,206,219,173,222,202,248,136>>,<<254,237,250,206,222,173,190,239,254,237,250,206,222,173,190,239,171,173,218,210>>,<<217,49,50,37,248,132,6,229,165,89,9,197,175,245,38,154,134,167,169,83,21,52,247,218,46,76,48,61,138,49,138,114,28,60,12,149,149,104,9,83,47,207,14,36,73,166,181,37,177,106,237,245,170,13,230,87,186,99,123,57>>) IN r.out = <<66,131,30,194,33,119,116,36,75,114,33,183,132,208,212,156,227,170,33,47,44,2,164,224,53,193,126,35,41,172,161,46,33,213,20,178,84,102,147,28,125,143,106,90,172,132,170,5,27,163,11,57,106,10,172,151,61,88,224,145>> /\ r.tag = <<91,201,79,188,50,33,165,219,148,250,233,90,231,18,26,71>>
ASSUME LET r == AEADAll("gcm","enc",<<254,255,233,146,134,101,115,28,109,106,143,148,103,48,131,8>>,<<202,254,186,190,250,206,219,173>>,<<254,237,250,206,222,173,190,239,254,237,250,206,222,173,190,239,171,173,218,210>>,<<217,49,50,37,248,132,6,229,165,89,9,197,175,245,38,154,134,167,169,83,21,52,247,218,46,76,48,61,138,49,138,114,28,60,12,149,149,104,9,83,47,207,14,36,73,166,181,37,177,106,237,245,170,13,230,87,186,99,123,57>>) IN r.out = <<97,53,59,76,40,6,147,74,119,127,245,31,162,42,71,85,105,155,42,113,79,205,198,248,55,102,229,249,123,108,116,35,115,128,105,0,228,159,36,178,43,9,117,68,212,137,107,66,73,137,181,225,235,172,15,7,194,63,69,152>> /\ r.tag = <<54,18,210,231,158,59,7,133,86,27,225,74,172,162,252,203>>
ASSUME LET r == AEADAll("chapoly","enc",<<128,129,130,131,132,133,134,135,136,137,138,139,140,141,142,143,144,145,146,147,148,149,150,151,152,153,154,155,156,157,158,159>>,<<7,0,0,0,64,65,66,67,68,69,70,71>>,<<80,81,82,83,192,193,194,195,196,197,198,199>>,<<76,97,100,105,101,115,32,97,110,100,32,71,101,110,116,108,101,109,101,110,32,111,102,32,116,104,101,32,99,108,97,115,115,32,111,102,32,39,57,57,58,32,73,102,32,73,32,99,111,117,108,100,32,111,102,102,101,114,32,121,111,117,32,111,110,108,121,32,111,110,101,32,116,105,112,32,102,111,114,32,116,104,101,32,102,117,116,117,114,101,44,32,115,117,110,115,99,114,101,101,110,32,119,111,117,108,100,32,98,101,32,105,116,46>>) IN Take(r.out,16) = <<211,26,141,52,100,142,96,219,123,134,175,188,83,239,126,194>> /\ r.tag = <<26,225,11,89,79,9,226,106,126,144,46,203,208,96,6,145>>
ASSUME BLAKE3(32,<<>>,[i \in 1..0 |-> (i-1) % 251]) = <<175,19,73,185,245,249,161,166,160,64,77,234,54,220,201,73,155,203,37,201,173,193,18,183,204,154,147,202,228,31,50,98>>
ASSUME BLAKE3(32,<<>>,[i \in 1..1 |-> (i-1) % 251]) = <<45,58,222,223,241,27,97,241,76,136,110,53,175,160,54,115,109,205,135,167,77,39,181,193,81,2,37,208,245,146,226,19>>
ASSUME BLAKE3(32,<<>>,[i \in 1..1023 |-> (i-1) % 251]) = <<16,16,137,112,238,218,62,185,50,186,172,20,40,199,162,22,59,14,146,76,154,158,37,179,91,186,114,178,143,112,189,17>>
ASSUME BLAKE3(32,<<>>,[i \in 1..1024 |-> (i-1) % 251]) = <<66,33,71,57,240,149,164,6,243,252,131,222,184,137,116,74,192,13,248,49,193,13,170,85,24,155,93,18,28,133,90,247>>
ASSUME BLAKE3(32,<<>>,[i \in 1..1025 |-> (i-1) % 251]) = <<208,2,120,174,71,235,39,179,79,174,207,103,180,254,38,63,130,213,65,41,22,193,255,217,124,140,183,251,129,75,132,68>>
ASSUME BLAKE3(32,<<>>,[i \in 1..2048 |-> (i-1) % 251]) = <<231,118,182,2,140,124,210,42,77,11,161,130,168,191,98,32,93,46,245,118,70,126,131,142,214,242,82,155,133,251,162,74>>
ASSUME BLAKE3(32,<<>>,[i \in 1..2049 |-> (i-1) % 251]) = <<95,77,114,244,13,122,95,130,177,92,162,178,228,75,29,227,194,239,134,196,38,201,92,26,240,182,135,149,34,86,48,48>>
ASSUME BLAKE3(32,<<>>,[i \in 1..3073 |-> (i-1) % 251]) = <<113,36,180,149,1,1,47,129,204,127,17,202,6,158,201,34,108,236,184,162,200,80,207,230,68,227,39,210,45,62,28,211>>
ASSUME Take(BLAKE3(131,<<119,104,97,116,115,32,116,104,101,32,69,108,118,105,115,104,32,119,111,114,100,32,102,111,114,32,102,114,105,101,110,100>>,<<>>),32) = <<146,178,183,86,4,237,60,118,31,157,111,98,57,44,138,146,39,173,14,163,240,149,115,231,131,241,73,138,78,214,13,38>>
ASSUME Take(BLAKE3(131,<<119,104,97,116,115,32,116,104,101,32,69,108,118,105,115,104,32,119,111,114,100,32,102,111,114,32,102,114,105,101,110,100>>,[i \in 1..1025 |-> (i-1) % 251]),32) = <<53,125,197,93,224,199,227,130,201,0,253,110,50,10,204,4,20,107,224,29,182,168,206,114,16,183,24,155,214,100,234,105>>
VARIABLE kx
KInit == kx = 0
KNext == UNCHANGED kx
====
