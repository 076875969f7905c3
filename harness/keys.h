/* generated by tools/gen_keys.py */
static const uint8_t hkey0[72] = { 48,70,2,1,0,48,13,6,9,42,134,72,134,247,13,1,1,1,5,0,4,50,48,48,2,1,0,2,6,0,150,213,71,79,89,2,3,1,0,1,2,5,119,193,119,69,105,2,3,12,130,111,2,3,12,14,183,2,3,6,192,161,2,3,11,26,129,2,3,8,236,192 };
static const uint8_t hkey1[124] = { 48,122,2,1,0,48,13,6,9,42,134,72,134,247,13,1,1,1,5,0,4,102,48,100,2,1,0,2,17,0,191,112,209,69,175,180,51,84,228,13,202,238,68,140,143,205,2,3,1,0,1,2,17,0,178,84,172,141,6,188,141,39,3,100,78,163,123,194,167,1,2,9,0,199,225,93,196,115,139,229,65,2,9,0,245,48,215,134,64,197,139,141,2,8,23,244,244,23,42,190,54,193,2,9,0,214,82,89,50,75,15,226,73,2,9,0,153,60,119,193,216,28,121,228 };
static const uint8_t hkey2[197] = { 48,129,194,2,1,0,48,13,6,9,42,134,72,134,247,13,1,1,1,5,0,4,129,173,48,129,170,2,1,0,2,33,0,220,239,94,70,44,126,70,76,83,248,168,75,39,127,145,206,49,137,150,132,47,215,38,68,108,169,190,52,1,245,36,189,2,1,17,2,33,0,207,240,88,186,132,58,156,132,18,203,233,176,37,44,197,117,5,6,156,115,169,133,227,249,211,248,177,156,68,226,94,241,2,17,0,249,146,152,41,72,194,91,159,36,246,27,105,71,156,140,229,2,17,0,226,159,248,32,2,246,136,107,214,123,102,20,177,40,18,249,2,17,0,146,206,179,220,12,174,144,63,127,39,91,107,27,16,203,89,2,17,0,159,248,114,233,107,128,216,196,151,102,41,240,125,13,58,145,2,16,104,186,26,86,68,40,245,63,14,62,225,35,237,45,150,202 };
static const uint8_t hkey3[207] = { 48,129,204,2,1,0,48,13,6,9,42,134,72,134,247,13,1,1,1,5,0,4,129,183,48,129,180,2,1,0,2,37,3,22,155,87,44,1,100,207,9,197,31,152,36,207,127,109,59,190,75,232,248,26,127,232,36,99,101,199,58,71,235,23,122,25,57,3,91,2,1,3,2,37,2,15,18,58,29,86,67,52,177,46,21,16,24,100,197,175,63,127,140,64,220,152,131,205,160,164,180,69,48,181,165,138,54,201,39,186,155,2,13,14,8,109,45,12,199,40,135,77,196,67,133,23,2,24,56,86,230,92,126,249,135,173,53,186,51,165,99,234,50,100,112,74,64,218,39,57,230,93,2,13,9,90,243,115,93,218,27,4,222,130,215,174,15,2,24,37,143,68,61,169,251,175,200,206,124,34,110,66,156,33,152,74,220,43,60,26,38,153,147,2,12,81,235,245,126,156,101,16,101,111,199,60,177 };
static const uint8_t hkey4[345] = { 48,130,1,85,2,1,0,48,13,6,9,42,134,72,134,247,13,1,1,1,5,0,4,130,1,63,48,130,1,59,2,1,0,2,65,0,199,97,153,175,65,165,241,59,8,255,120,11,152,18,16,67,32,107,22,70,71,115,70,139,232,9,112,245,19,227,178,110,52,52,139,7,242,157,84,214,55,158,198,40,70,133,172,234,133,15,160,13,84,66,82,157,94,171,201,95,135,19,136,101,2,3,1,0,1,2,65,0,144,242,39,99,253,121,193,241,133,13,20,28,121,165,72,37,68,192,21,37,106,116,39,105,54,123,6,159,100,162,55,232,21,29,106,230,52,135,135,33,110,79,147,147,127,117,197,216,211,21,247,250,71,95,102,210,100,241,222,123,199,59,124,81,2,33,0,238,99,69,215,67,78,4,192,140,93,55,77,184,151,253,197,29,252,123,208,92,180,79,213,204,142,104,145,72,101,44,251,2,33,0,214,28,148,172,30,228,11,94,1,122,194,245,4,99,188,155,172,18,172,122,178,152,212,215,6,121,155,71,77,225,98,31,2,32,127,205,75,1,23,253,56,192,253,191,111,201,196,32,0,21,240,120,142,236,106,246,228,34,43,243,97,14,26,112,219,135,2,32,19,98,247,27,54,152,211,102,169,159,161,243,105,120,86,101,138,9,14,208,245,70,221,78,178,233,99,227,234,235,83,101,2,33,0,204,64,199,151,78,56,251,216,49,254,196,49,189,49,92,93,103,191,47,142,35,245,1,16,108,79,22,41,28,201,188,132 };
static const uint8_t hkey5[105] = { 48,103,2,1,0,48,13,6,9,42,134,72,134,247,13,1,1,1,5,0,4,83,48,81,2,1,0,2,13,0,187,56,13,159,87,126,37,142,239,88,10,147,2,3,1,0,1,2,12,22,4,58,125,225,144,237,77,215,51,4,145,2,7,0,195,2,255,249,128,235,2,7,0,245,197,38,131,114,249,2,6,123,147,153,22,73,5,2,7,0,150,96,255,99,198,225,2,7,0,177,215,3,24,105,247 };
#define HKEYS 6
static const struct { const uint8_t *d; int n; } hkeys[HKEYS] = { { hkey0, 72 }, { hkey1, 124 }, { hkey2, 197 }, { hkey3, 207 }, { hkey4, 345 }, { hkey5, 105 } };
