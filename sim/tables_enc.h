// Frozen copy of the encoder's tables, dumped once from the pinned commit; the
// reference model never reads the tables under test.
#pragma once
#include <cstdint>
namespace frozen {
static const int16_t h12k8_8[]={214,417,-1052,-4529,26233,-4529,-1052,417,214,0,180,0,-1522,-2427,24506,-5289,0,763,156,-28,92,-323,-1361,0,19741,-3885,1317,861,0,-61,0,-457,-752,1873,13068,0,2389,598,-213,-79,-61,-398,0,2686,5997,5997,2686,0,-398,-61,-79,-213,598,2389,0,13068,1873,-752,-457,0,-61,0,861,1317,-3885,19741,0,-1361,-323,92,-28,156,763,0,-5289,24506,-2427,-1522,0,180,};
static const int16_t h12k8_16[]={-61,214,-398,417,0,-1052,2686,-4529,5997,26233,5997,-4529,2686,-1052,0,417,-398,214,-61,0,-79,180,-213,0,598,-1522,2389,-2427,0,24506,13068,-5289,1873,0,-752,763,-457,156,0,-28,-61,92,0,-323,861,-1361,1317,0,-3885,19741,19741,-3885,0,1317,-1361,861,-323,0,92,-61,-28,0,156,-457,763,-752,0,1873,-5289,13068,24506,0,-2427,2389,-1522,598,0,-213,180,-79,};
static const int16_t h12k8_24[]={-50,19,143,-93,-290,278,485,-658,-701,1396,901,-3019,-1042,10276,17488,10276,-1042,-3019,901,1396,-701,-658,485,278,-290,-93,143,19,-50,0,-46,0,141,-45,-305,185,543,-501,-854,1153,1249,-2619,-1908,8712,17358,11772,0,-3319,480,1593,-504,-796,399,367,-261,-142,138,40,-52,-5,-41,-17,133,0,-304,91,574,-334,-959,878,1516,-2143,-2590,7118,16971,13161,1202,-3495,0,1731,-267,-908,287,445,-215,-188,125,62,-52,-12,-34,-30,120,41,-291,0,577,-164,-1015,585,1697,-1618,-3084,5534,16337,14406,2544,-3526,-523,1800,0,-985,152,509,-156,-230,104,83,-48,-19,-26,-41,103,76,-265,-83,554,0,-1023,288,1791,-1070,-3393,3998,15474,15474,3998,-3393,-1070,1791,288,-1023,0,554,-83,-265,76,103,-41,-26,-19,-48,83,104,-230,-156,509,152,-985,0,1800,-523,-3526,2544,14406,16337,5534,-3084,-1618,1697,585,-1015,-164,577,0,-291,41,120,-30,-34,-12,-52,62,125,-188,-215,445,287,-908,-267,1731,0,-3495,1202,13161,16971,7118,-2590,-2143,1516,878,-959,-334,574,91,-304,0,133,-17,-41,-5,-52,40,138,-142,-261,367,399,-796,-504,1593,480,-3319,0,11772,17358,8712,-1908,-2619,1249,1153,-854,-501,543,185,-305,-45,141,0,-46,};
static const int16_t h12k8_32[]={-30,-31,46,107,0,-199,-162,209,430,0,-681,-526,658,1343,0,-2264,-1943,2999,9871,13116,9871,2999,-1943,-2264,0,1343,658,-526,-681,0,430,209,-162,-199,0,107,46,-31,-30,0,-14,-39,0,90,78,-106,-229,0,382,299,-376,-761,0,1194,937,-1214,-2644,0,6534,12253,12253,6534,0,-2644,-1214,937,1194,0,-761,-376,299,382,0,-229,-106,78,90,0,-39,-14,};
static const int16_t h12k8_48[]={-13,-25,-20,10,51,71,38,-47,-133,-145,-42,139,277,242,0,-329,-511,-351,144,698,895,450,-535,-1510,-1697,-521,1999,5138,7737,8744,7737,5138,1999,-521,-1697,-1510,-535,450,895,698,144,-351,-511,-329,0,242,277,139,-42,-145,-133,-47,38,71,51,10,-20,-25,-13,0,-9,-23,-24,0,41,71,52,-23,-115,-152,-78,92,254,272,76,-251,-493,-427,0,576,900,624,-262,-1309,-1763,-954,1272,4356,7203,8679,8169,5886,2767,0,-1542,-1660,-809,240,848,796,292,-252,-507,-398,-82,199,288,183,0,-130,-145,-71,20,69,60,20,-15,-26,-17,-3,-6,-20,-26,-8,31,67,62,0,-94,-152,-108,45,223,287,143,-167,-454,-480,-134,439,866,758,0,-1071,-1748,-1295,601,3559,6580,8485,8485,6580,3559,601,-1295,-1748,-1071,0,758,866,439,-134,-480,-454,-167,143,287,223,45,-108,-152,-94,0,62,67,31,-8,-26,-20,-6,-3,-17,-26,-15,20,60,69,20,-71,-145,-130,0,183,288,199,-82,-398,-507,-252,292,796,848,240,-809,-1660,-1542,0,2767,5886,8169,8679,7203,4356,1272,-954,-1763,-1309,-262,624,900,576,0,-427,-493,-251,76,272,254,92,-78,-152,-115,-23,52,71,41,0,-24,-23,-9,};
static const int16_t h12k8_96[]={-3,-7,-10,-13,-13,-10,-4,5,15,26,33,36,31,19,0,-23,-47,-66,-76,-73,-54,-21,23,70,111,139,143,121,72,0,-84,-165,-227,-256,-240,-175,-67,72,219,349,433,448,379,225,0,-268,-536,-755,-874,-848,-648,-260,301,1000,1780,2569,3290,3869,4243,4372,4243,3869,3290,2569,1780,1000,301,-260,-648,-848,-874,-755,-536,-268,0,225,379,448,433,349,219,72,-67,-175,-240,-256,-227,-165,-84,0,72,121,143,139,111,70,23,-21,-54,-73,-76,-66,-47,-23,0,19,31,36,33,26,15,5,-4,-10,-13,-13,-10,-7,-3,0,-1,-5,-8,-12,-13,-12,-8,0,10,21,30,35,34,26,10,-11,-35,-58,-73,-76,-65,-39,0,46,92,127,144,136,100,38,-41,-125,-199,-246,-254,-214,-126,0,146,288,398,450,424,312,120,-131,-405,-655,-830,-881,-771,-477,0,636,1384,2178,2943,3601,4084,4340,4340,4084,3601,2943,2178,1384,636,0,-477,-771,-881,-830,-655,-405,-131,120,312,424,450,398,288,146,0,-126,-214,-254,-246,-199,-125,-41,38,100,136,144,127,92,46,0,-39,-65,-76,-73,-58,-35,-11,10,26,34,35,30,21,10,0,-8,-12,-13,-12,-8,-5,-1,};
static const int16_t *const h12k8[7]={h12k8_8,h12k8_16,h12k8_24,h12k8_32,h12k8_48,h12k8_48,h12k8_96};
static const uint16_t spec_bits[64][17]={{20480,20480,5220,9042,20480,20480,6619,9892,5289,6619,9105,11629,8982,9892,11629,13677,4977,},{11940,10854,12109,13677,10742,9812,11090,12288,11348,10240,11348,12683,12109,10854,11629,12902,1197,},{7886,7120,8982,10970,7496,6815,8334,10150,9437,8535,9656,11216,11348,10431,11348,12479,4051,},{5485,6099,9168,11940,6311,6262,8640,11090,9233,8640,10334,12479,11781,11090,12479,13988,6009,},{7886,7804,10150,11940,7886,7685,9368,10854,10061,9300,10431,11629,11629,10742,11485,12479,2763,},{9042,8383,10240,11781,8483,8013,9437,10742,10334,9437,10431,11485,11781,10742,11485,12288,2346,},{5922,6619,9368,11940,6566,6539,8750,10970,9168,8640,10240,12109,11485,10742,11940,13396,5009,},{12288,11090,11348,12109,11090,9892,10334,10970,11629,10431,10970,11629,12479,11348,11781,12288,1289,},{1685,5676,13138,18432,5598,7804,13677,18432,12683,13396,17234,20480,17234,17234,20480,20480,15725,},{2793,5072,10970,15725,5204,6487,11216,15186,10970,11216,14336,17234,15186,15186,17234,18432,12109,},{12902,11485,11940,13396,11629,10531,11348,12479,12683,11629,12288,13138,13677,12683,13138,13677,854,},{3821,5088,9812,13988,5289,5901,9812,13677,9976,9892,12479,15186,13988,13677,15186,17234,9812,},{4856,5412,9168,12902,5598,5736,8863,12288,9368,8982,11090,13677,12902,12288,13677,15725,8147,},{20480,20480,7088,9300,20480,20480,7844,9733,7320,7928,9368,10970,9581,9892,10970,12288,2550,},{6031,5859,8192,10635,6410,6286,8433,10742,9656,9042,10531,12479,12479,11629,12902,14336,5756,},{6144,6215,8982,11940,6262,6009,8433,11216,8982,8433,10240,12479,11781,11090,12479,13988,5817,},{20480,20480,11216,12109,20480,20480,11216,11940,11629,11485,11940,12479,12479,12109,12683,13138,704,},{7928,6994,8239,9733,7218,6539,8147,9892,9812,9105,10240,11629,12109,11216,12109,13138,4167,},{8640,7724,9233,10970,8013,7185,8483,10150,9656,8694,9656,10970,11348,10334,11090,12288,3391,},{20480,18432,18432,18432,18432,18432,18432,18432,18432,18432,18432,18432,18432,18432,18432,18432,91,},{10061,8863,9733,11090,8982,7970,8806,9976,10061,9105,9812,10742,11485,10334,10970,11781,2557,},{10431,9368,10240,11348,9368,8433,9233,10334,10431,9437,10061,10970,11781,10635,11216,11940,2119,},{13988,12479,12683,12902,12683,11348,11485,11940,12902,11629,11940,12288,13396,12109,12479,12683,828,},{10431,9300,10334,11629,9508,8483,9437,10635,10635,9656,10431,11348,11940,10854,11485,12288,1946,},{12479,11216,11629,12479,11348,10150,10635,11348,11940,10854,11216,11940,12902,11629,11940,12479,1146,},{13396,12109,12288,12902,12109,10854,11216,11781,12479,11348,11629,12109,13138,11940,12288,12683,928,},{2443,5289,11629,16384,5170,6730,11940,16384,11216,11629,14731,18432,15725,15725,18432,20480,13396,},{3328,5009,10531,15186,5040,6031,10531,14731,10431,10431,13396,16384,15186,14731,16384,18432,11629,},{14336,12902,12902,13396,12902,11629,11940,12288,13138,12109,12288,12902,13677,12683,12902,13138,711,},{4300,5204,9437,13396,5430,5776,9300,12902,9656,9437,11781,14731,13396,12902,14731,16384,8982,},{5394,5776,8982,12288,5922,5901,8640,11629,9105,8694,10635,13138,12288,11629,13138,14731,6844,},{17234,15725,15725,15725,15725,14731,14731,14731,16384,14731,14731,15186,16384,15186,15186,15186,272,},{6461,6286,8806,11348,6566,6215,8334,10742,9233,8535,10061,12109,11781,10970,12109,13677,5394,},{6674,6487,8863,11485,6702,6286,8334,10635,9168,8483,9976,11940,11629,10854,11940,13396,5105,},{15186,13677,13677,13988,13677,12479,12479,12683,13988,12683,12902,13138,14336,13138,13396,13677,565,},{7844,7252,8922,10854,7389,6815,8383,10240,9508,8750,9892,11485,11629,10742,11629,12902,3842,},{9233,8239,9233,10431,8334,7424,8483,9892,10061,9105,10061,11216,11781,10742,11485,12479,2906,},{20480,20480,14731,14731,20480,20480,14336,14336,15186,14336,14731,14731,15186,14731,14731,15186,266,},{10531,9300,9976,11090,9437,8286,9042,10061,10431,9368,9976,10854,11781,10531,11090,11781,2233,},{11629,10334,10970,12109,10431,9368,10061,10970,11348,10240,10854,11485,12288,11216,11629,12288,1469,},{952,6787,15725,20480,6646,9733,16384,20480,14731,15725,18432,20480,18432,20480,20480,20480,18432,},{9437,8806,10742,12288,8982,8483,9892,11216,10742,9892,10854,11940,12109,11090,11781,12683,1891,},{12902,11629,11940,12479,11781,10531,10854,11485,12109,10970,11348,11940,12902,11781,12109,12479,1054,},{2113,5323,11781,16384,5579,7252,12288,16384,11781,12288,15186,18432,15725,16384,18432,20480,12902,},{2463,5965,11348,15186,5522,6934,11216,14731,10334,10635,13677,16384,13988,13988,15725,18432,10334,},{3779,5541,9812,13677,5467,6122,9656,13138,9581,9437,11940,14731,13138,12683,14336,16384,8982,},{3181,5154,10150,14336,5448,6311,10334,13988,10334,10431,13138,15725,14336,13988,15725,18432,10431,},{4841,5560,9105,12479,5756,5944,8922,12109,9300,8982,11090,13677,12479,12109,13677,15186,7460,},{5859,6009,8922,11940,6144,5987,8483,11348,9042,8535,10334,12683,11940,11216,12683,14336,6215,},{4250,4916,8587,12109,5901,6191,9233,12288,10150,9892,11940,14336,13677,13138,14731,16384,8383,},{7153,6702,8863,11216,6904,6410,8239,10431,9233,8433,9812,11629,11629,10742,11781,13138,4753,},{6674,7057,9508,11629,7120,6964,8806,10635,9437,8750,10061,11629,11485,10531,11485,12683,4062,},{5341,5289,8013,10970,6311,6262,8640,11090,10061,9508,11090,13138,12902,12288,13396,15186,6539,},{8057,7533,9300,11216,7685,7057,8535,10334,9508,8694,9812,11216,11485,10431,11348,12479,3541,},{9168,8239,9656,11216,8483,7608,8806,10240,9892,8982,9812,11090,11485,10431,11090,12109,2815,},{558,7928,18432,20480,7724,12288,20480,20480,18432,20480,20480,20480,20480,20480,20480,20480,20480,},{9892,8806,9976,11348,9042,8057,9042,10240,10240,9233,9976,11090,11629,10531,11216,12109,2371,},{11090,9812,10531,11629,9976,8863,9508,10531,10854,9733,10334,11090,11940,10742,11216,11940,1821,},{7354,6964,9042,11216,7153,6592,8334,10431,9233,8483,9812,11485,11485,10531,11629,12902,4349,},{11348,10150,10742,11629,10150,9042,9656,10431,10854,9812,10431,11216,12109,10970,11485,12109,1700,},{20480,20480,8694,10150,20480,20480,8982,10240,8982,9105,9976,10970,10431,10431,11090,11940,1610,},{9233,8192,9368,10970,8286,7496,8587,9976,9812,8863,9733,10854,11348,10334,11090,11940,3040,},{4202,5716,9733,13138,5598,6099,9437,12683,9300,9168,11485,13988,12479,12109,13988,15725,7804,},{4400,5965,9508,12479,6009,6360,9105,11781,9300,8982,10970,13138,12109,11629,13138,14731,6994,},};
static const uint16_t order_bits[2][8]={{17234,13988,11216,8694,6566,4977,3961,3040,},{12683,9437,6874,5541,5121,5170,5359,5056,},};
static const uint16_t coef_bits[8][17]={{20480,15725,12479,10334,8694,7320,6964,6335,5504,5637,6566,6758,8433,11348,15186,20480,20480,},{20480,20480,20480,20480,12902,9368,7057,5901,5254,5485,5598,6076,7608,10742,15186,20480,20480,},{20480,20480,20480,20480,13988,9368,6702,4841,4585,4682,5859,7764,12109,20480,20480,20480,20480,},{20480,20480,20480,20480,18432,13396,8982,4767,3779,3658,6335,9656,13988,20480,20480,20480,20480,},{20480,20480,20480,20480,20480,14731,9437,4275,3249,3493,8483,13988,17234,20480,20480,20480,20480,},{20480,20480,20480,20480,20480,20480,12902,4753,3040,2953,9105,15725,20480,20480,20480,20480,20480,},{20480,20480,20480,20480,20480,20480,12902,3821,3346,3000,12109,20480,20480,20480,20480,20480,20480,},{20480,20480,20480,20480,20480,20480,15725,3658,20480,1201,10854,18432,20480,20480,20480,20480,20480,},};
}
