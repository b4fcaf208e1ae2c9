/* written by the library as of commit 40f8b2a (see wire.c, MODE 2) */
static const unsigned char gold_root0[32] = {
 252,35,47,54,230,18,165,34,39,174,60,243,221,82,92,146,122,2,189,140,30,178,110,240,102,83,130,223,135,125,243,191,
};
static const unsigned char gold_root1[32] = {
 190,26,145,2,116,61,66,214,128,160,243,208,22,101,238,249,101,13,48,54,238,122,211,126,214,18,108,72,102,118,42,131,
};
static const unsigned char gold_root2[32] = {
 24,107,161,207,97,209,156,252,106,231,234,27,1,108,205,199,93,236,214,164,26,201,39,32,244,153,20,196,197,148,145,54,
};
static const unsigned char gold_root3[32] = {
 215,151,97,132,171,249,53,197,104,178,165,39,90,135,162,25,150,10,201,38,111,12,74,15,100,0,187,162,250,251,34,124,
};
static const unsigned char gold_proof0[298] = {
 0,193,4,0,112,75,19,140,170,169,91,178,33,65,211,111,96,142,255,127,153,170,154,127,48,95,57,125,251,135,41,163,145,146,230,21,196,7,44,112,208,176,20,23,163,173,230,56,
 32,247,42,26,142,59,57,104,145,166,19,217,88,254,185,37,166,76,177,50,168,43,87,120,103,185,242,4,94,145,43,125,183,200,2,84,239,33,123,34,129,53,218,228,139,255,254,107,
 127,117,231,46,38,211,161,224,205,131,235,127,197,140,150,177,227,76,6,134,125,211,135,125,27,140,48,165,202,126,227,23,184,45,81,198,106,159,3,176,71,9,254,130,92,240,94,56,
 182,159,12,101,91,189,58,144,126,201,175,171,108,49,246,167,32,182,91,173,23,135,150,9,128,0,186,193,200,207,214,221,228,235,242,249,0,7,14,21,28,35,42,49,56,63,70,77,
 84,91,98,105,112,119,126,133,140,147,154,161,168,175,182,189,196,203,210,217,224,231,238,245,252,3,10,17,24,31,38,45,52,59,66,73,80,87,94,101,108,115,122,129,136,143,150,157,
 164,171,178,185,192,199,206,213,220,227,234,241,248,255,6,13,20,27,34,41,48,55,62,69,76,83,90,97,104,111,118,125,132,139,146,153,160,167,174,181,188,195,202,209,216,223,230,237,
 244,251,2,9,16,23,30,37,44,51,
};
static const unsigned char gold_proof1[170] = {
 0,193,4,0,112,75,19,140,170,169,91,178,33,65,211,111,96,142,255,127,153,170,154,127,48,95,57,125,251,135,41,163,145,146,230,21,196,7,44,112,208,176,20,23,163,173,230,56,
 32,247,42,26,142,59,57,104,145,166,19,217,88,254,185,37,166,76,177,50,168,43,87,120,103,185,242,4,94,145,43,125,183,200,2,84,239,33,123,34,129,53,218,228,139,255,254,107,
 127,117,231,46,38,211,161,224,205,131,235,127,197,140,150,177,227,76,6,134,125,211,135,125,27,140,48,165,202,126,227,23,184,45,81,198,106,159,3,176,89,60,195,131,15,111,230,248,
 22,253,105,166,66,54,89,252,50,192,205,60,181,178,253,175,64,223,76,84,127,127,248,126,0,0,
};
static const unsigned char gold_proof2[293] = {
 1,192,1,0,0,211,4,191,40,170,113,61,183,10,23,8,187,4,74,142,205,6,250,168,23,106,3,232,69,181,43,119,139,37,80,67,90,254,0,93,100,107,114,121,128,135,142,149,
 156,163,170,177,184,191,198,205,212,219,226,233,240,247,254,5,12,19,26,33,40,47,54,61,68,75,82,89,96,103,110,117,124,131,138,145,152,159,166,173,180,187,194,201,208,215,222,229,
 236,243,250,1,8,15,22,29,36,43,50,57,64,71,78,85,92,99,106,113,120,127,134,141,148,155,162,169,176,183,190,197,204,211,218,225,232,239,246,253,4,11,18,25,32,39,46,53,
 60,67,74,81,88,95,102,109,116,123,130,137,144,151,158,165,172,179,186,193,200,207,214,221,228,235,242,249,0,7,14,21,28,35,42,49,56,63,70,77,84,91,98,105,112,119,126,133,
 140,147,154,161,168,175,182,189,196,203,210,217,224,231,238,245,252,3,10,17,24,31,38,45,52,59,66,73,80,87,94,101,108,115,122,129,136,143,150,157,164,171,178,185,192,199,206,213,
 220,227,234,241,248,255,6,13,20,27,34,41,48,55,62,69,76,83,90,97,104,111,118,125,132,139,146,153,160,167,174,181,188,195,202,209,216,223,230,237,244,251,2,9,16,23,30,37,
 44,51,58,65,72,
};
static const unsigned char gold_proof3[273] = {
 9,192,2,0,64,75,19,140,170,169,91,178,33,65,211,111,96,142,255,127,153,170,154,127,48,95,57,125,251,135,41,163,145,146,230,21,196,7,44,22,127,230,233,103,70,76,49,184,
 36,94,207,5,127,62,124,208,85,136,4,238,111,239,186,142,29,163,139,89,149,127,32,200,0,124,131,138,145,152,159,166,173,180,187,194,201,208,215,222,229,236,243,250,1,8,15,22,
 29,36,43,50,57,64,71,78,85,92,99,106,113,120,127,134,141,148,155,162,169,176,183,190,197,204,211,218,225,232,239,246,253,4,11,18,25,32,39,46,53,60,67,74,81,88,95,102,
 109,116,123,130,137,144,151,158,165,172,179,186,193,200,207,214,221,228,235,242,249,0,7,14,21,28,35,42,49,56,63,70,77,84,91,98,105,112,119,126,133,140,147,154,161,168,175,182,
 189,196,203,210,217,224,231,238,245,252,3,10,17,24,31,38,45,52,59,66,73,80,87,94,101,108,115,122,129,136,143,150,157,164,171,178,185,192,199,206,213,220,227,234,241,248,255,6,
 13,20,27,34,41,48,55,62,69,76,83,90,97,104,111,118,125,132,139,146,153,160,167,174,181,188,195,202,209,216,223,230,237,
};
static const unsigned char gold_proof4[376] = {
 130,192,3,0,96,75,19,140,170,169,91,178,33,65,211,111,96,142,255,127,153,170,154,127,48,95,57,125,251,135,41,163,145,146,230,21,196,7,44,112,208,176,20,23,163,173,230,56,
 32,247,42,26,142,59,57,104,145,166,19,217,88,254,185,37,166,76,177,50,168,43,87,120,103,185,242,4,94,145,43,125,183,200,2,84,239,33,123,87,55,39,237,193,34,66,17,27,
 107,127,215,31,186,136,160,178,245,204,253,234,89,185,198,38,12,51,90,48,244,34,155,255,0,155,162,169,176,183,190,197,204,211,218,225,232,239,246,253,4,11,18,25,32,39,46,53,
 60,67,74,81,88,95,102,109,116,123,130,137,144,151,158,165,172,179,186,193,200,207,214,221,228,235,242,249,0,7,14,21,28,35,42,49,56,63,70,77,84,91,98,105,112,119,126,133,
 140,147,154,161,168,175,182,189,196,203,210,217,224,231,238,245,252,3,10,17,24,31,38,45,52,59,66,73,80,87,94,101,108,115,122,129,136,143,150,157,164,171,178,185,192,199,206,213,
 220,227,234,241,248,255,6,13,20,27,34,41,48,55,62,69,76,83,90,97,104,111,118,125,132,139,146,153,160,167,174,181,188,195,202,209,216,223,230,237,244,251,2,9,16,23,30,37,
 44,51,58,65,72,79,86,93,100,107,114,121,128,135,142,149,156,163,170,177,184,191,198,205,212,219,226,233,240,247,254,5,12,19,26,33,40,47,54,61,68,75,82,89,96,103,110,117,
 124,131,138,145,152,159,166,173,180,187,194,201,208,215,222,229,236,243,250,1,8,15,22,29,36,43,50,57,64,71,78,85,92,99,106,113,120,127,134,141,
};
static const unsigned char gold_proof5[103] = {
 1,64,1,0,0,75,19,140,170,169,91,178,33,65,211,111,96,142,255,127,153,170,154,127,48,95,57,125,251,135,41,163,145,146,230,21,196,7,44,112,208,176,20,23,163,173,230,56,
 32,247,42,26,142,59,57,104,145,166,19,217,88,254,185,37,166,76,177,50,168,43,87,22,127,230,233,103,70,76,49,184,36,94,207,5,127,62,124,208,85,136,4,238,111,239,186,142,
 29,163,139,89,149,127,32,
};
static const unsigned char gold_root4[32] = {
 210,250,83,169,5,175,136,252,17,237,223,56,242,196,29,247,160,183,17,192,115,155,0,242,238,33,112,55,5,165,36,78,
};
static const unsigned char gold_root5[32] = {
 0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
};
static const unsigned char gold_root6[32] = {
 91,168,161,9,15,136,104,196,234,174,146,255,85,249,34,155,113,98,87,241,96,118,135,4,45,168,5,212,105,62,84,186,
};
static const unsigned char gold_file[2698] = {
 31,38,45,2,2,0,0,0,0,0,3,150,179,220,249,2,47,72,149,190,219,228,1,42,119,144,189,198,227,12,41,114,159,184,197,238,11,84,113,154,167,192,237,0,0,0,0,0,
 0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,108,107,114,109,0,0,0,0,0,0,0,2,0,6,0,0,0,40,123,249,
 191,153,118,244,245,48,35,201,244,62,43,123,102,115,25,26,1,74,2,2,0,228,0,0,0,0,150,179,220,249,2,47,72,149,190,219,228,1,42,119,144,189,198,227,12,41,114,159,
 184,197,238,11,84,113,154,167,192,236,17,255,150,179,220,249,2,47,72,149,190,219,228,1,42,119,144,189,198,227,12,41,114,159,184,197,238,11,84,113,154,167,192,236,2,0,228,0,
 0,0,40,71,9,254,130,92,240,94,56,182,159,12,101,91,189,58,144,126,201,175,171,108,49,246,167,32,182,91,173,23,135,150,9,2,0,6,0,0,0,40,252,35,47,54,230,18,
 165,34,39,174,60,243,221,82,92,146,122,2,189,140,30,178,110,240,102,83,130,223,135,125,243,191,108,107,114,109,2,0,152,0,0,0,0,2,0,52,1,0,0,112,237,100,236,207,
 202,38,109,159,201,72,87,246,177,168,90,234,81,195,17,68,93,100,107,114,121,128,135,142,149,156,163,170,177,184,191,198,205,212,219,226,233,240,247,254,5,12,19,26,33,40,47,54,
 61,68,75,82,89,96,103,110,117,124,131,138,145,152,159,166,173,180,187,194,201,208,215,222,229,236,243,250,1,8,15,22,29,36,43,50,57,64,71,78,85,92,99,106,113,120,127,134,
 141,148,155,162,169,176,183,190,197,204,211,218,225,232,239,246,253,4,11,18,25,32,39,46,53,60,67,74,81,88,95,102,109,116,123,130,137,144,151,158,165,172,179,186,193,200,207,214,
 221,228,235,242,249,0,7,14,21,28,35,42,49,56,63,70,77,84,91,98,105,112,119,126,133,140,147,154,161,168,175,182,189,196,203,210,217,224,231,238,245,252,3,10,17,24,31,38,
 45,52,59,66,73,80,87,94,101,108,115,122,129,136,143,150,157,164,171,178,185,192,199,206,213,220,227,234,241,248,255,6,13,20,27,34,41,48,55,62,69,76,83,90,97,104,111,118,
 125,132,139,146,153,160,167,174,181,188,195,202,209,216,223,230,237,244,251,2,9,16,23,30,37,44,51,58,65,72,2,2,0,96,2,0,0,254,22,179,220,249,2,47,72,149,190,219,
 228,1,42,119,144,189,198,227,12,41,114,159,184,197,238,11,84,113,154,167,192,237,124,131,138,145,152,159,166,173,180,187,194,201,208,215,222,229,236,243,250,1,8,15,22,29,36,43,
 50,57,64,71,78,85,92,99,106,113,120,127,134,141,148,155,162,169,176,183,190,197,204,211,218,225,232,239,246,253,4,11,18,25,32,39,46,53,60,67,74,81,88,95,102,109,116,123,
 130,137,144,151,158,165,172,179,186,193,200,207,214,221,228,235,242,249,0,7,14,21,28,35,42,49,56,63,70,77,84,91,98,105,112,119,126,133,140,147,154,161,168,175,182,189,196,203,
 210,217,224,231,238,245,252,3,10,17,24,31,38,45,52,59,66,73,80,87,94,101,108,115,122,129,136,143,150,157,164,171,178,185,192,199,206,213,220,227,234,241,248,255,6,13,20,27,
 34,41,48,55,62,69,76,83,90,97,104,111,118,125,132,139,146,153,160,167,174,181,188,195,202,209,216,223,230,237,2,2,0,172,4,0,0,200,150,51,220,249,2,47,72,149,190,219,
 228,1,42,119,144,189,198,227,12,41,114,159,184,197,238,11,84,113,154,167,192,237,17,246,103,185,242,4,94,145,43,125,183,200,2,84,239,33,123,141,198,24,82,229,63,113,139,220,
 22,168,227,53,79,129,216,2,0,228,0,0,0,40,71,9,254,130,92,240,94,56,182,159,12,101,91,189,58,144,126,201,175,171,108,49,246,167,32,182,91,173,23,135,150,9,2,0,
 6,0,0,0,40,252,35,47,54,230,18,165,34,39,174,60,243,221,82,92,146,122,2,189,140,30,178,110,240,102,83,130,223,135,125,243,191,17,7,44,2,0,60,6,0,0,40,112,
 208,176,20,23,163,173,230,56,32,247,42,26,142,59,57,104,145,166,19,217,88,254,185,37,166,76,177,50,168,43,87,2,0,140,6,0,0,111,184,197,206,145,208,87,246,201,21,128,
 13,197,36,191,250,203,136,110,199,210,88,236,233,183,129,132,113,242,187,73,149,120,1,2,0,92,4,0,0,40,75,19,140,170,169,91,178,33,65,211,111,96,142,255,127,153,170,154,
 127,48,95,57,125,251,135,41,163,145,146,230,21,196,2,0,106,7,0,0,81,154,158,61,49,21,22,186,198,167,243,183,159,112,97,141,104,140,50,90,158,5,212,38,29,91,149,246,
 244,89,27,166,239,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,108,107,114,109,2,0,20,2,0,0,0,2,
 0,12,8,0,0,79,191,147,36,124,248,204,140,232,199,82,242,234,249,178,192,97,117,99,137,129,155,162,169,176,183,190,197,204,211,218,225,232,239,246,253,4,11,18,25,32,39,46,
 53,60,67,74,81,88,95,102,109,116,123,130,137,144,151,158,165,172,179,186,193,200,207,214,221,228,235,242,249,0,7,14,21,28,35,42,49,56,63,70,77,84,91,98,105,112,119,126,
 133,140,147,154,161,168,175,182,189,196,203,210,217,224,231,238,245,252,3,10,17,24,31,38,45,52,59,66,73,80,87,94,101,108,115,122,129,136,143,150,157,164,171,178,185,192,199,206,
 213,220,227,234,241,248,255,6,13,20,27,34,41,48,55,62,69,76,83,90,97,104,111,118,125,132,139,146,153,160,167,174,181,188,195,202,209,216,223,230,237,244,251,2,9,16,23,30,
 37,44,51,58,65,72,79,86,93,100,107,114,121,128,135,142,149,156,163,170,177,184,191,198,205,212,219,226,233,240,247,254,5,12,19,26,33,40,47,54,61,68,75,82,89,96,103,110,
 117,124,131,138,145,152,159,166,173,180,187,194,201,208,215,222,229,236,243,250,1,8,15,22,29,36,43,50,57,64,71,78,85,92,99,106,113,120,127,134,141,2,2,0,52,9,0,0,
 255,150,179,220,249,2,47,72,149,190,219,228,1,42,119,144,189,134,227,12,41,114,159,184,197,238,11,84,113,154,167,192,237,186,193,200,207,214,221,228,235,242,249,0,7,14,21,28,
 35,42,49,56,63,70,77,84,91,98,105,112,119,126,133,140,147,154,161,168,175,182,189,196,203,210,217,224,231,238,245,252,3,10,17,24,31,38,45,52,59,66,73,80,87,94,101,108,
 115,122,129,136,143,150,157,164,171,178,185,192,199,206,213,220,227,234,241,248,255,6,13,20,27,34,41,48,55,62,69,76,83,90,97,104,111,118,125,132,139,146,153,160,167,174,181,188,
 195,202,209,216,223,230,237,244,251,2,9,16,23,30,37,44,51,2,2,0,130,11,0,0,128,150,179,220,249,2,47,72,149,190,219,228,1,42,119,144,189,198,227,12,41,114,159,184,
 197,238,11,84,113,154,167,192,237,17,125,27,140,48,165,202,126,227,23,184,45,81,198,106,159,3,176,2,0,228,0,0,0,40,71,9,254,130,92,240,94,56,182,159,12,101,91,189,
 58,144,126,201,175,171,108,49,246,167,32,182,91,173,23,135,150,9,2,0,130,12,0,0,40,89,60,195,131,15,111,230,248,22,253,105,166,66,54,89,252,50,192,205,60,181,178,253,
 175,64,223,76,84,127,127,248,126,17,120,103,185,242,4,94,145,43,125,183,200,2,84,239,33,123,2,0,50,11,0,0,40,34,129,53,218,228,139,255,254,107,127,117,231,46,38,211,
 161,224,205,131,235,127,197,140,150,177,227,76,6,134,125,211,135,2,0,210,12,0,0,96,87,55,39,237,193,34,66,17,27,107,127,215,31,186,136,160,178,245,204,253,234,89,185,198,
 38,12,51,90,48,244,34,155,17,7,44,2,0,60,6,0,0,40,112,208,176,20,23,163,173,230,56,32,247,42,26,142,59,57,104,145,166,19,217,88,254,185,37,166,76,177,50,168,
 43,87,2,0,146,13,0,0,95,22,127,230,233,103,70,76,49,184,36,94,207,5,127,62,124,208,85,136,4,238,111,239,186,142,29,163,139,89,149,127,32,1,2,0,92,4,0,0,
 40,75,19,140,170,169,91,178,33,65,211,111,96,142,255,127,153,170,154,127,48,95,57,125,251,135,41,163,145,146,230,21,196,2,0,80,14,0,0,81,211,4,191,40,170,113,61,183,
 10,23,8,187,4,74,142,205,6,250,168,23,106,3,232,69,181,43,119,139,37,80,67,90,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,108,107,
 114,109,2,0,232,8,0,0,0,2,0,242,14,0,0,79,123,167,190,78,110,116,104,255,188,139,168,216,133,53,201,54,192,40,146,86,17,121,179,220,249,2,47,72,149,190,219,228,
 1,42,119,144,189,128,2,0,50,11,0,0,40,34,129,53,218,228,139,255,254,107,127,117,231,46,38,211,161,224,205,131,235,127,197,140,150,177,227,76,6,134,125,211,135,2,0,210,
 12,0,0,96,87,55,39,237,193,34,66,17,27,107,127,215,31,186,136,160,178,245,204,253,234,89,185,198,38,12,51,90,48,244,34,155,217,224,231,238,245,252,3,10,17,24,31,38,
 45,52,59,66,73,80,87,94,101,108,115,122,129,136,143,150,157,164,171,178,185,192,199,206,213,220,227,234,241,248,255,6,13,20,27,34,41,48,55,62,69,76,83,90,97,104,111,118,
 125,132,139,146,153,160,167,174,181,188,195,202,209,216,223,230,237,244,251,2,9,16,23,30,37,44,51,58,65,72,79,86,93,100,107,114,121,128,135,142,149,156,163,170,177,184,191,198,
 205,212,219,226,233,240,247,254,5,12,19,26,33,40,47,54,61,68,75,82,89,2,2,0,200,16,0,0,129,151,179,220,249,2,47,72,149,190,219,228,1,42,119,144,189,198,227,12,
 41,114,159,184,197,238,11,84,113,154,167,192,237,17,6,44,2,0,8,16,0,0,96,142,195,2,80,188,152,250,93,222,72,214,86,246,33,236,70,106,35,134,87,61,165,209,99,118,
 4,249,250,228,35,222,144,2,0,202,17,0,0,40,184,11,114,89,62,16,215,121,156,230,45,65,239,138,133,174,100,74,98,244,199,131,224,255,34,222,119,32,78,0,196,139,1,2,
 0,92,4,0,0,40,75,19,140,170,169,91,178,33,65,211,111,96,142,255,127,153,170,154,127,48,95,57,125,251,135,41,163,145,146,230,21,196,2,0,26,18,0,0,81,226,146,46,
 132,144,222,80,53,148,189,147,18,212,26,82,75,106,216,18,139,137,234,89,45,111,144,192,84,239,108,199,57,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
 0,0,0,0,0,0,0,0,0,0,0,0,108,107,114,109,2,0,188,15,0,0,0,2,0,188,18,0,0,79,68,84,212,95,103,167,11,201,79,45,83,81,223,111,28,14,57,146,
 64,188,108,107,114,109,2,0,152,19,0,0,0,0,0,0,0,0,0,0,158,115,75,110,229,51,50,212,63,216,199,58,200,200,119,119,140,183,235,237,248,2,2,0,48,20,0,0,
 1,150,179,220,249,2,47,72,149,190,219,228,1,42,119,144,189,198,227,12,41,114,159,184,197,238,11,84,113,154,167,192,237,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
 0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,108,107,114,109,2,0,228,19,0,0,0,2,0,50,20,0,0,40,75,25,102,254,47,97,168,246,255,184,
 170,58,234,187,177,222,90,124,41,99,
};
static const unsigned char gold_key[32] = {
 1,4,7,10,13,16,19,22,25,28,31,34,37,40,43,46,49,52,55,58,61,64,67,70,73,76,79,82,85,88,91,94,
};
