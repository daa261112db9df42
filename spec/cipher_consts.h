/* generated by gen_cipher.py from the definitions in the standards */
static const uint8_t spec_aes_s[256]={99,124,119,123,242,107,111,197,48,1,103,43,254,215,171,118,202,130,201,125,250,89,71,240,173,212,162,175,156,164,114,192,183,253,147,38,54,63,247,204,52,165,229,241,113,216,49,21,4,199,35,195,24,150,5,154,7,18,128,226,235,39,178,117,9,131,44,26,27,110,90,160,82,59,214,179,41,227,47,132,83,209,0,237,32,252,177,91,106,203,190,57,74,76,88,207,208,239,170,251,67,77,51,133,69,249,2,127,80,60,159,168,81,163,64,143,146,157,56,245,188,182,218,33,16,255,243,210,205,12,19,236,95,151,68,23,196,167,126,61,100,93,25,115,96,129,79,220,34,42,144,136,70,238,184,20,222,94,11,219,224,50,58,10,73,6,36,92,194,211,172,98,145,149,228,121,231,200,55,109,141,213,78,169,108,86,244,234,101,122,174,8,186,120,37,46,28,166,180,198,232,221,116,31,75,189,139,138,112,62,181,102,72,3,246,14,97,53,87,185,134,193,29,158,225,248,152,17,105,217,142,148,155,30,135,233,206,85,40,223,140,161,137,13,191,230,66,104,65,153,45,15,176,84,187,22};
static const uint8_t spec_aes_is[256]={82,9,106,213,48,54,165,56,191,64,163,158,129,243,215,251,124,227,57,130,155,47,255,135,52,142,67,68,196,222,233,203,84,123,148,50,166,194,35,61,238,76,149,11,66,250,195,78,8,46,161,102,40,217,36,178,118,91,162,73,109,139,209,37,114,248,246,100,134,104,152,22,212,164,92,204,93,101,182,146,108,112,72,80,253,237,185,218,94,21,70,87,167,141,157,132,144,216,171,0,140,188,211,10,247,228,88,5,184,179,69,6,208,44,30,143,202,63,15,2,193,175,189,3,1,19,138,107,58,145,17,65,79,103,220,234,151,242,207,206,240,180,230,115,150,172,116,34,231,173,53,133,226,249,55,232,28,117,223,110,71,241,26,113,29,41,197,137,111,183,98,14,170,24,190,27,252,86,62,75,198,210,121,32,154,219,192,254,120,205,90,244,31,221,168,51,136,7,199,49,177,18,16,89,39,128,236,95,96,81,127,169,25,181,74,13,45,229,122,159,147,201,156,239,160,224,59,77,174,42,245,176,200,235,187,60,131,83,153,97,23,43,4,126,186,119,214,38,225,105,20,99,85,33,12,125};
static const uint8_t spec_q0[256]={169,103,179,232,4,253,163,118,154,146,128,120,228,221,209,56,13,198,53,152,24,247,236,108,67,117,55,38,250,19,148,72,242,208,139,48,132,84,223,35,25,91,61,89,243,174,162,130,99,1,131,46,217,81,155,124,166,235,165,190,22,12,227,97,192,140,58,245,115,44,37,11,187,78,137,107,83,106,180,241,225,230,189,69,226,244,182,102,204,149,3,86,212,28,30,215,251,195,142,181,233,207,191,186,234,119,57,175,51,201,98,113,129,121,9,173,36,205,249,216,229,197,185,77,68,8,134,231,161,29,170,237,6,112,178,210,65,123,160,17,49,194,39,144,32,246,96,255,150,92,177,171,158,156,82,27,95,147,10,239,145,133,73,238,45,79,143,59,71,135,109,70,214,62,105,100,42,206,203,47,252,151,5,122,172,127,213,26,75,14,167,90,40,20,63,41,136,60,76,2,184,218,176,23,85,31,138,125,87,199,141,116,183,196,159,114,126,21,34,18,88,7,153,52,110,80,222,104,101,188,219,248,200,168,43,64,220,254,50,164,202,16,33,240,211,93,15,0,111,157,54,66,74,94,193,224};
static const uint8_t spec_q1[256]={117,243,198,244,219,123,251,200,74,211,230,107,69,125,232,75,214,50,216,253,55,113,241,225,48,15,248,27,135,250,6,63,94,186,174,91,138,0,188,157,109,193,177,14,128,93,210,213,160,132,7,20,181,144,44,163,178,115,76,84,146,116,54,81,56,176,189,90,252,96,98,150,108,66,247,16,124,40,39,140,19,149,156,199,36,70,59,112,202,227,133,203,17,208,147,184,166,131,32,255,159,119,195,204,3,111,8,191,64,231,43,226,121,12,170,130,65,58,234,185,228,154,164,151,126,218,122,23,102,148,161,29,61,240,222,179,11,114,167,28,239,209,83,62,143,51,38,95,236,118,42,73,129,136,238,33,196,26,235,217,197,57,153,205,173,49,139,1,24,35,221,31,78,45,249,72,79,242,101,142,120,92,88,25,141,229,152,87,103,127,5,100,175,99,182,254,245,183,60,165,206,233,104,68,224,77,67,105,41,46,172,21,89,168,10,158,110,71,223,52,53,106,207,220,34,201,192,155,137,212,237,171,18,162,13,82,187,2,47,169,215,97,30,180,80,4,246,194,22,37,134,86,85,9,190,145};
#define SPEC_SERPENT_S0(x0,x1,x2,x3,y0,y1,y2,y3) { y0=(~0u)^(x0)^(x0&x1)^(x2)^(x0&x2)^(x1&x2)^(x0&x1&x2)^(x3)^(x0&x2&x3)^(x1&x2&x3); y1=(~0u)^(x0)^(x0&x2)^(x1&x2)^(x0&x1&x2)^(x1&x3)^(x0&x2&x3)^(x1&x2&x3); y2=(x1)^(x0&x1)^(x0&x2)^(x0&x1&x2)^(x3)^(x1&x3)^(x1&x2&x3); y3=(x0)^(x1)^(x2)^(x3)^(x0&x3); }
#define SPEC_SERPENT_S1(x0,x1,x2,x3,y0,y1,y2,y3) { y0=(~0u)^(x0)^(x1)^(x1&x2)^(x0&x3)^(x2&x3)^(x0&x2&x3)^(x1&x2&x3); y1=(~0u)^(x0)^(x0&x1)^(x2)^(x0&x2)^(x3)^(x1&x3)^(x0&x1&x3)^(x0&x2&x3)^(x1&x2&x3); y2=(~0u)^(x1)^(x0&x1)^(x2)^(x3); y3=(~0u)^(x1)^(x0&x2)^(x3)^(x0&x3)^(x0&x1&x3)^(x0&x2&x3)^(x1&x2&x3); }
#define SPEC_SERPENT_S2(x0,x1,x2,x3,y0,y1,y2,y3) { y0=(x1)^(x2)^(x0&x2)^(x3); y1=(x0)^(x1)^(x2)^(x1&x2)^(x0&x1&x2)^(x0&x3)^(x0&x1&x3)^(x2&x3)^(x0&x2&x3); y2=(x0)^(x1)^(x1&x2)^(x3)^(x1&x3)^(x0&x1&x3)^(x2&x3)^(x0&x2&x3); y3=(~0u)^(x0)^(x1)^(x2)^(x0&x1&x2)^(x1&x3); }
#define SPEC_SERPENT_S3(x0,x1,x2,x3,y0,y1,y2,y3) { y0=(x0)^(x1)^(x1&x2)^(x3)^(x0&x3)^(x2&x3)^(x0&x2&x3)^(x1&x2&x3); y1=(x0)^(x1)^(x0&x2)^(x0&x3)^(x0&x1&x3)^(x2&x3)^(x0&x2&x3); y2=(x0)^(x0&x1)^(x2)^(x0&x1&x2)^(x3)^(x1&x3)^(x0&x1&x3); y3=(x0)^(x1)^(x0&x1)^(x2)^(x0&x2)^(x0&x1&x2)^(x3)^(x2&x3)^(x0&x2&x3); }
#define SPEC_SERPENT_S4(x0,x1,x2,x3,y0,y1,y2,y3) { y0=(~0u)^(x1)^(x0&x1)^(x2)^(x3)^(x0&x3)^(x1&x3); y1=(x0)^(x0&x2)^(x1&x2)^(x3)^(x1&x3)^(x2&x3)^(x0&x2&x3)^(x1&x2&x3); y2=(x0)^(x0&x1)^(x2)^(x1&x2)^(x0&x1&x2)^(x1&x3)^(x0&x1&x3)^(x2&x3)^(x1&x2&x3); y3=(x0)^(x1)^(x2)^(x1&x2)^(x0&x3)^(x1&x3)^(x0&x1&x3); }
#define SPEC_SERPENT_S5(x0,x1,x2,x3,y0,y1,y2,y3) { y0=(~0u)^(x1)^(x0&x1)^(x2)^(x3)^(x0&x3)^(x1&x3); y1=(~0u)^(x0)^(x0&x1)^(x2)^(x3)^(x1&x3)^(x0&x1&x3)^(x2&x3); y2=(~0u)^(x1)^(x0&x2)^(x3)^(x0&x1&x3)^(x2&x3)^(x0&x2&x3)^(x1&x2&x3); y3=(~0u)^(x0)^(x1)^(x2)^(x0&x1&x2)^(x3)^(x0&x3)^(x0&x2&x3); }
#define SPEC_SERPENT_S6(x0,x1,x2,x3,y0,y1,y2,y3) { y0=(~0u)^(x0)^(x1)^(x2)^(x0&x2)^(x1&x2)^(x0&x1&x2)^(x3)^(x0&x1&x3)^(x1&x2&x3); y1=(~0u)^(x1)^(x2)^(x0&x3); y2=(~0u)^(x0)^(x0&x1)^(x2)^(x1&x2)^(x0&x1&x2)^(x1&x3)^(x0&x1&x3)^(x2&x3)^(x1&x2&x3); y3=(x1)^(x0&x1)^(x2)^(x0&x2)^(x0&x1&x2)^(x3)^(x2&x3)^(x1&x2&x3); }
#define SPEC_SERPENT_S7(x0,x1,x2,x3,y0,y1,y2,y3) { y0=(~0u)^(x0&x1)^(x2)^(x0&x3)^(x1&x3)^(x2&x3)^(x0&x2&x3)^(x1&x2&x3); y1=(x1)^(x0&x1)^(x2)^(x0&x2)^(x1&x2)^(x3)^(x0&x3)^(x0&x1&x3)^(x0&x2&x3); y2=(x0)^(x1)^(x2)^(x0&x1&x2)^(x3)^(x0&x3)^(x1&x3)^(x0&x1&x3)^(x1&x2&x3); y3=(x0)^(x1)^(x2)^(x0&x2)^(x0&x1&x2)^(x0&x3); }
#define SPEC_SERPENT_I0(x0,x1,x2,x3,y0,y1,y2,y3) { y0=(~0u)^(x0&x1)^(x2)^(x1&x2)^(x0&x3)^(x1&x3)^(x0&x1&x3)^(x2&x3)^(x0&x2&x3)^(x1&x2&x3); y1=(x0)^(x1)^(x2)^(x0&x2)^(x1&x3)^(x0&x2&x3)^(x1&x2&x3); y2=(~0u)^(x0)^(x1)^(x0&x1)^(x2)^(x3); y3=(~0u)^(x0)^(x1&x2)^(x3)^(x0&x1&x3)^(x2&x3)^(x0&x2&x3)^(x1&x2&x3); }
#define SPEC_SERPENT_I1(x0,x1,x2,x3,y0,y1,y2,y3) { y0=(~0u)^(x0)^(x1)^(x0&x1)^(x0&x1&x2)^(x1&x3)^(x0&x2&x3)^(x1&x2&x3); y1=(x1)^(x2)^(x0&x1&x2)^(x3)^(x0&x3)^(x1&x3)^(x0&x2&x3)^(x1&x2&x3); y2=(~0u)^(x0)^(x1)^(x0&x2)^(x1&x2)^(x0&x1&x2)^(x3)^(x0&x2&x3); y3=(x0)^(x2)^(x3)^(x1&x3); }
#define SPEC_SERPENT_I2(x0,x1,x2,x3,y0,y1,y2,y3) { y0=(x0)^(x1)^(x2)^(x1&x2)^(x1&x3); y1=(x1)^(x0&x1)^(x2)^(x0&x3)^(x0&x1&x3)^(x2&x3)^(x0&x2&x3); y2=(~0u)^(x0)^(x0&x1)^(x2)^(x3)^(x0&x3)^(x1&x3)^(x0&x1&x3)^(x0&x2&x3); y3=(~0u)^(x0&x1)^(x1&x2)^(x0&x1&x2)^(x3)^(x0&x2&x3); }
#define SPEC_SERPENT_I3(x0,x1,x2,x3,y0,y1,y2,y3) { y0=(x0)^(x2)^(x1&x2)^(x3)^(x0&x3)^(x1&x3)^(x1&x2&x3); y1=(x1)^(x2)^(x1&x2)^(x0&x1&x2)^(x3)^(x0&x3)^(x0&x2&x3)^(x1&x2&x3); y2=(x0&x1)^(x0&x2)^(x1&x2)^(x0&x3)^(x1&x3)^(x0&x1&x3)^(x2&x3)^(x0&x2&x3); y3=(x0)^(x1)^(x2)^(x0&x2)^(x0&x1&x2)^(x0&x3)^(x0&x1&x3)^(x2&x3); }
#define SPEC_SERPENT_I4(x0,x1,x2,x3,y0,y1,y2,y3) { y0=(~0u)^(x0)^(x1)^(x2)^(x3)^(x0&x3)^(x0&x1&x3)^(x2&x3)^(x0&x2&x3); y1=(x0&x1)^(x2)^(x0&x2)^(x3)^(x0&x3)^(x0&x2&x3); y2=(~0u)^(x0)^(x1)^(x0&x1)^(x2)^(x0&x2)^(x0&x1&x2)^(x3)^(x1&x3)^(x0&x1&x3); y3=(x1)^(x0&x1)^(x2)^(x0&x3)^(x0&x1&x3)^(x2&x3); }
#define SPEC_SERPENT_I5(x0,x1,x2,x3,y0,y1,y2,y3) { y0=(x0)^(x1&x2)^(x3)^(x0&x1&x3); y1=(x0)^(x1)^(x0&x2)^(x1&x2)^(x0&x1&x2)^(x3)^(x0&x3)^(x0&x1&x3); y2=(x0)^(x0&x1)^(x2)^(x1&x3)^(x0&x1&x3)^(x0&x2&x3); y3=(~0u)^(x1)^(x0&x1)^(x2)^(x0&x1&x2)^(x0&x3); }
#define SPEC_SERPENT_I6(x0,x1,x2,x3,y0,y1,y2,y3) { y0=(~0u)^(x0)^(x0&x1)^(x0&x2)^(x1&x2)^(x0&x1&x2)^(x3)^(x0&x1&x3)^(x1&x2&x3); y1=(~0u)^(x1)^(x2)^(x0&x2)^(x3); y2=(~0u)^(x0)^(x1)^(x1&x2)^(x1&x3)^(x0&x1&x3)^(x2&x3)^(x1&x2&x3); y3=(~0u)^(x1)^(x0&x1)^(x2)^(x1&x2)^(x0&x1&x2)^(x3)^(x0&x3)^(x0&x1&x3)^(x2&x3)^(x1&x2&x3); }
#define SPEC_SERPENT_I7(x0,x1,x2,x3,y0,y1,y2,y3) { y0=(~0u)^(x0)^(x1)^(x1&x2)^(x1&x3)^(x0&x1&x3)^(x2&x3)^(x1&x2&x3); y1=(~0u)^(x0)^(x2)^(x1&x2)^(x3)^(x0&x3)^(x1&x3)^(x0&x2&x3)^(x1&x2&x3); y2=(x1)^(x0&x2)^(x3)^(x0&x1&x3)^(x2&x3)^(x0&x2&x3); y3=(x0&x1)^(x2)^(x0&x1&x2)^(x0&x3)^(x1&x3)^(x0&x1&x3); }
