// Frozen copy of the codec's normative tables, dumped once from the pinned
// commit; the reference model never reads the tables under test.
#pragma once
#include <cstdint>
namespace frozen {
static const int ns_2m5[7]={20,40,60,80,120,120,240,};
static const int ne_2m5[7]={20,40,60,80,100,120,240,};
static const int ns_4m[7]={32,64,96,128,192,192,384,};
static const int hr_lim[4][2][2]={{{27,210},{31,210},},{{46,375},{54,375},},{{0,0},{0,0},},{{78,625},{93,625},},};
static const int num_bands[4][7]={{20,35,40,43,44,45,49,},{39,50,52,54,55,55,58,},{60,64,64,64,64,0,0,},{64,64,64,64,64,64,64,},};
static const int bl_0_0[]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,};
static const int bl_0_1[]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,32,34,36,38,40,};
static const int bl_0_2[]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,28,30,32,34,36,38,40,42,44,47,50,53,56,60,};
static const int bl_0_3[]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,26,28,30,32,34,36,38,40,43,46,49,52,55,59,63,67,71,75,80,};
static const int bl_0_4[]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,23,25,27,29,31,33,35,37,40,43,46,49,52,56,60,64,68,72,77,82,87,93,100,};
static const int bl_0_5[]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,21,23,25,27,29,31,33,35,37,40,43,46,49,53,57,61,65,69,74,79,85,91,97,104,112,120,};
static const int bl_0_6[]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,18,20,22,24,26,28,30,32,35,38,41,45,49,53,57,62,67,73,79,85,92,100,108,117,127,137,149,161,174,189,204,221,240,};
static const int bl_1_0[]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,40,};
static const int bl_1_1[]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,32,34,36,38,40,42,44,46,48,50,52,54,57,60,63,66,69,72,76,80,};
static const int bl_1_2[]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,26,28,30,32,34,36,38,40,42,44,47,50,53,56,59,62,65,69,73,77,81,86,91,96,101,107,113,120,};
static const int bl_1_3[]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,24,26,28,30,32,34,36,38,40,42,45,48,51,54,57,61,65,69,73,78,83,88,93,99,105,112,119,126,134,142,151,160,};
static const int bl_1_4[]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,23,25,27,29,31,33,35,37,40,43,46,49,52,55,59,63,67,72,77,82,87,93,99,105,112,120,128,136,145,155,165,176,187,200,};
static const int bl_1_5[]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,21,23,25,27,29,31,33,35,38,41,44,47,50,54,58,62,66,71,76,81,87,93,100,107,114,122,131,140,149,160,171,183,196,209,224,240,};
static const int bl_1_6[]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,19,21,23,25,27,29,31,34,37,40,44,48,52,56,61,66,71,77,83,90,98,106,115,124,135,146,158,171,185,200,217,235,254,275,298,323,349,378,409,443,480,};
static const int bl_2_0[]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,};
static const int bl_2_1[]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,36,38,40,42,44,46,48,50,52,54,56,58,60,62,65,68,71,74,77,80,83,86,90,94,98,102,106,110,115,120,};
static const int bl_2_2[]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,29,31,33,35,37,39,41,43,45,47,49,52,55,58,61,64,67,70,74,78,82,86,90,95,100,105,110,115,121,127,134,141,148,155,163,171,180,};
static const int bl_2_3[]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,26,28,30,32,34,36,38,40,42,45,48,51,54,57,60,63,67,71,75,79,84,89,94,99,105,111,117,124,131,138,146,154,163,172,182,192,203,215,227,240,};
static const int bl_2_4[]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,24,26,28,30,32,34,36,38,40,43,46,49,52,55,59,63,67,71,75,80,85,90,96,102,108,115,122,129,137,146,155,165,175,186,197,209,222,236,251,266,283,300,};
static const int bl_3_0[]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,51,53,55,57,59,61,63,65,67,69,71,73,75,77,80,};
static const int bl_3_1[]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,30,32,34,36,38,40,42,44,46,48,50,52,55,58,61,64,67,70,73,76,80,84,88,92,96,101,106,111,116,121,127,133,139,146,153,160,};
static const int bl_3_2[]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,25,27,29,31,33,35,37,39,41,43,46,49,52,55,58,61,64,68,72,76,80,85,90,95,100,106,112,118,125,132,139,147,155,164,173,183,193,204,215,227,240,};
static const int bl_3_3[]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,22,24,26,28,30,32,34,36,38,41,44,47,50,53,56,60,64,68,72,76,81,86,91,97,103,109,116,123,131,139,148,157,166,176,187,199,211,224,238,252,268,284,302,320,};
static const int bl_3_4[]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,20,22,24,26,28,30,32,34,36,39,42,45,48,51,55,59,63,67,71,76,81,86,92,98,105,112,119,127,135,144,154,164,175,186,198,211,225,240,256,273,291,310,330,352,375,400,};
static const int bl_3_5[]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,19,21,23,25,27,29,31,33,36,39,42,45,48,51,55,59,63,67,72,77,83,89,95,101,108,116,124,133,142,152,163,174,187,200,214,229,244,262,280,299,320,343,367,392,419,449,480,};
static const int bl_3_6[]={0,1,2,3,4,5,6,7,8,9,10,11,12,14,16,18,20,22,24,26,28,30,33,36,39,42,46,50,54,59,64,69,75,82,89,96,104,113,122,132,143,155,168,181,196,213,230,249,270,292,316,342,371,401,434,470,509,551,596,646,699,757,819,887,960,};
static const int *const band_lim[4][7]={{bl_0_0,bl_0_1,bl_0_2,bl_0_3,bl_0_4,bl_0_5,bl_0_6,},{bl_1_0,bl_1_1,bl_1_2,bl_1_3,bl_1_4,bl_1_5,bl_1_6,},{bl_2_0,bl_2_1,bl_2_2,bl_2_3,bl_2_4,0,0,},{bl_3_0,bl_3_1,bl_3_2,bl_3_3,bl_3_4,bl_3_5,bl_3_6,},};
static const float win_0_0[]={0.0067379144,0.0273228958,0.0616356097,0.111912504,0.17870535,0.260752499,0.354977638,0.456769675,0.560523927,0.660366535,0.750943422,0.828138232,0.889585018,0.934874773,0.965405703,0.983902633,0.993718088,0.998098731,0.999626637,0.999977291,0.999977291,0.999626637,0.998098731,0.993718088,0.983902633,0.965405703,0.934874773,0.889585018,0.828138232,0.750943422,0.660366535,0.560523927,0.456769675,0.354977638,0.260752499,0.17870535,0.111912504,0.0616356097,0.0273228958,0.0067379144,};
static const float win_0_1[]={0.00476441626,0.0120463632,0.0222639646,0.0358022302,0.0529905483,0.0740851834,0.0992538556,0.128563121,0.161969244,0.199313238,0.24032028,0.284603804,0.331674337,0.380952448,0.431786209,0.483471304,0.535274327,0.586457074,0.636301935,0.684136033,0.729354441,0.771440148,0.809980273,0.844678283,0.875360191,0.901975989,0.924594641,0.943393946,0.958645225,0.970693648,0.979935825,0.986795783,0.991701305,0.995062172,0.997251928,0.998594999,0.999358892,0.999752104,0.999927461,0.999988675,0.999988675,0.999927461,0.999752104,0.999358892,0.998594999,0.997251928,0.995062172,0.991701305,0.986795783,0.979935825,0.970693648,0.958645225,0.943393946,0.924594641,0.901975989,0.875360191,0.844678283,0.809980273,0.771440148,0.729354441,0.684136033,0.636301935,0.586457074,0.535274327,0.483471304,0.431786209,0.380952448,0.331674337,0.284603804,0.24032028,0.199313238,0.161969244,0.128563121,0.0992538556,0.0740851834,0.0529905483,0.0358022302,0.0222639646,0.0120463632,0.00476441626,};
static const float win_0_2[]={0.00389013416,0.0082025947,0.0137023553,0.0205296855,0.0288030766,0.0386278518,0.050095696,0.0632829666,0.0782488137,0.0950334668,0.113656752,0.134116888,0.156389669,0.180427983,0.206161723,0.233498186,0.262322724,0.292499989,0.323875457,0.356277287,0.389518708,0.423400402,0.457713604,0.492242783,0.526769161,0.56107384,0.594941139,0.628161728,0.66053617,0.691877663,0.722014785,0.750794232,0.778082788,0.80376929,0.827765763,0.850008368,0.870457947,0.889099717,0.905942678,0.921018541,0.934380293,0.946099699,0.956265509,0.964980185,0.972357213,0.97851795,0.983588219,0.987695456,0.990965545,0.993520081,0.9954741,0.996933877,0.997995615,0.998744428,0.99925369,0.999585092,0.999789238,0.999906123,0.999966383,0.99999243,0.99999243,0.999966383,0.999906123,0.999789238,0.999585092,0.99925369,0.998744428,0.997995615,0.996933877,0.9954741,0.993520081,0.990965545,0.987695456,0.983588219,0.97851795,0.972357213,0.964980185,0.956265509,0.946099699,0.934380293,0.921018541,0.905942678,0.889099717,0.870457947,0.850008368,0.827765763,0.80376929,0.778082788,0.750794232,0.722014785,0.691877663,0.66053617,0.628161728,0.594941139,0.56107384,0.526769161,0.492242783,0.457713604,0.423400402,0.389518708,0.356277287,0.323875457,0.292499989,0.262322724,0.233498186,0.206161723,0.180427983,0.156389669,0.134116888,0.113656752,0.0950334668,0.0782488137,0.0632829666,0.050095696,0.0386278518,0.0288030766,0.0205296855,0.0137023553,0.0082025947,0.00389013416,};
static const float win_0_3[]={0.00336895837,0.00645555742,0.0101430807,0.0145212682,0.0196507666,0.025583528,0.032366287,0.0400411785,0.0486456417,0.0582120717,0.0687674284,0.0803328529,0.0929232687,0.10654708,0.121205896,0.136894271,0.15359962,0.171302065,0.189974457,0.209582418,0.230084464,0.25143227,0.273570776,0.296438813,0.319969207,0.344089478,0.36872226,0.393785954,0.419195354,0.444862306,0.470696479,0.496606052,0.522498548,0.54828155,0.573863626,0.59915489,0.624067962,0.648518622,0.672426581,0.695716143,0.718316793,0.740163803,0.761198759,0.781370044,0.800633132,0.818950891,0.836293817,0.852640152,0.867976069,0.882295191,0.895598948,0.907896042,0.919202149,0.929539621,0.938936889,0.947427928,0.955051839,0.961851895,0.967874885,0.973170638,0.977791011,0.981789052,0.985218585,0.988133192,0.990585685,0.992627382,0.994307637,0.995673299,0.996768117,0.997632742,0.998304248,0.998816073,0.99919802,0.999476075,0.999672711,0.999806881,0.999894559,0.999948561,0.999979138,0.999994338,0.999994338,0.999979138,0.999948561,0.999894559,0.999806881,0.999672711,0.999476075,0.99919802,0.998816073,0.998304248,0.997632742,0.996768117,0.995673299,0.994307637,0.992627382,0.990585685,0.988133192,0.985218585,0.981789052,0.977791011,0.973170638,0.967874885,0.961851895,0.955051839,0.947427928,0.938936889,0.929539621,0.919202149,0.907896042,0.895598948,0.882295191,0.867976069,0.852640152,0.836293817,0.818950891,0.800633132,0.781370044,0.761198759,0.740163803,0.718316793,0.695716143,0.672426581,0.648518622,0.624067962,0.59915489,0.573863626,0.54828155,0.522498548,0.496606052,0.470696479,0.444862306,0.419195354,0.393785954,0.36872226,0.344089478,0.319969207,0.296438813,0.273570776,0.25143227,0.230084464,0.209582418,0.189974457,0.171302065,0.15359962,0.136894271,0.121205896,0.10654708,0.0929232687,0.0803328529,0.0687674284,0.0582120717,0.0486456417,0.0400411785,0.032366287,0.025583528,0.0196507666,0.0145212682,0.0101430807,0.00645555742,0.00336895837,};
static const float win_0_4[]={0.00275074644,0.00477524521,0.00699126534,0.00947011821,0.0122441575,0.0153355943,0.0187626686,0.0225415435,0.0266870148,0.0312127713,0.0361315012,0.0414549112,0.047193706,0.0533575602,0.0599550642,0.066993691,0.0744797364,0.082418263,0.0908131003,0.0996667296,0.108980343,0.118753716,0.128985271,0.139671966,0.150809377,0.162391603,0.174411342,0.186859816,0.19972685,0.213000834,0.22666882,0.240716472,0.255128115,0.269886822,0.284974486,0.300371736,0.316058159,0.332012236,0.348211527,0.364632696,0.381251484,0.398043066,0.414981782,0.432041585,0.449195832,0.46641764,0.483679742,0.500954807,0.518215418,0.535434127,0.552583814,0.569637418,0.586568296,0.603350341,0.619957983,0.636366129,0.652550697,0.668488264,0.684156358,0.699533641,0.714599669,0.729335368,0.743722737,0.757745087,0.77138716,0.784635007,0.797476232,0.809899747,0.821896136,0.833457351,0.844576955,0.85525012,0.865473449,0.875245035,0.884564638,0.893433332,0.901853681,0.909829736,0.917366743,0.924471378,0.93115145,0.937415957,0.943275094,0.948739827,0.953822196,0.958535075,0.962892056,0.966907263,0.970595479,0.973971903,0.977052033,0.979851604,0.982386589,0.984672904,0.986726403,0.988562882,0.990197837,0.991646528,0.992923737,0.994043887,0.995020866,0.995867968,0.996597826,0.997222543,0.997753382,0.998201072,0.998575449,0.998885751,0.999140382,0.999347031,0.999512792,0.999643862,0.999745905,0.999823987,0.9998824,0.999925017,0.999955177,0.999975562,0.999988616,0.999996245,0.999996245,0.999988616,0.999975562,0.999955177,0.999925017,0.9998824,0.999823987,0.999745905,0.999643862,0.999512792,0.999347031,0.999140382,0.998885751,0.998575449,0.998201072,0.997753382,0.997222543,0.996597826,0.995867968,0.995020866,0.994043887,0.992923737,0.991646528,0.990197837,0.988562882,0.986726403,0.984672904,0.982386589,0.979851604,0.977052033,0.973971903,0.970595479,0.966907263,0.962892056,0.958535075,0.953822196,0.948739827,0.943275094,0.937415957,0.93115145,0.924471378,0.917366743,0.909829736,0.901853681,0.893433332,0.884564638,0.875245035,0.865473449,0.85525012,0.844576955,0.833457351,0.821896136,0.809899747,0.797476232,0.784635007,0.77138716,0.757745087,0.743722737,0.729335368,0.714599669,0.699533641,0.684156358,0.668488264,0.652550697,0.636366129,0.619957983,0.603350341,0.586568296,0.569637418,0.552583814,0.535434127,0.518215418,0.500954807,0.483679742,0.46641764,0.449195832,0.432041585,0.414981782,0.398043066,0.381251484,0.364632696,0.348211527,0.332012236,0.316058159,0.300371736,0.284974486,0.269886822,0.255128115,0.240716472,0.22666882,0.213000834,0.19972685,0.186859816,0.174411342,0.162391603,0.150809377,0.139671966,0.128985271,0.118753716,0.108980343,0.0996667296,0.0908131003,0.082418263,0.0744797364,0.066993691,0.0599550642,0.0533575602,0.047193706,0.0414549112,0.0361315012,0.0312127713,0.0266870148,0.0225415435,0.0187626686,0.0153355943,0.0122441575,0.00947011821,0.00699126534,0.00477524521,0.00275074644,};
static const float win_0_5[]={1.92887526e-07,1.26862312e-06,3.73694297e-06,8.64938647e-06,1.75249988e-05,3.25100409e-05,5.65499504e-05,9.35865319e-05,0.000148780979,0.000228761899,0.000341896375,0.000498580979,0.000711548259,0.00099618244,0.00137083745,0.00185714674,0.00248031598,0.00326938415,0.0042574415,0.00548178842,0.00698402245,0.00881003775,0.0110099232,0.0136377569,0.0167512707,0.0204114113,0.0246817525,0.0296278261,0.0353163108,0.0418141559,0.0491876006,0.0575011559,0.066816546,0.0771916136,0.0886792317,0.101326235,0.115172401,0.130249396,0.146579877,0.164176553,0.183041364,0.203164726,0.224524856,0.247087196,0.270803988,0.295613915,0.321442008,0.348199695,0.375785023,0.404083431,0.432968378,0.462302625,0.491939783,0.521726012,0.551502347,0.581106782,0.610377192,0.639154077,0.667283058,0.694617987,0.72102344,0.74637711,0.770571768,0.793517113,0.815140784,0.835389018,0.854227006,0.871638596,0.887625158,0.90220499,0.915411413,0.927291155,0.93790257,0.947313428,0.95559895,0.962839723,0.969119847,0.974524975,0.979140759,0.983051181,0.986337543,0.989076972,0.991342008,0.993199587,0.994710743,0.995930433,0.996907234,0.997683644,0.998296261,0.998776138,0.999149203,0.999436796,0.9996562,0.999821365,0.999943137,1.00003016,1.00008917,1.00012529,1.00014281,1.00014508,1.00013494,1.00011492,1.00008726,1.00005412,1.00001764,0.999979734,0.999942362,0.999907196,0.999876022,0.999850094,0.999830663,0.999818563,0.999814391,0.999818325,0.999830186,0.999849498,0.999875486,0.999906898,0.999942422,0.999980509,1.00001943,1.00005758,1.0000931,1.00012457,1.00015044,1.00016987,1.00018167,1.00018561,1.00018144,1.00016928,1.00014985,1.00012374,1.00009227,1.00005662,1.00001836,0.99997896,0.99993974,0.999902129,0.999867082,0.999835134,0.999806285,0.999779761,0.999753773,0.999725282,0.999689877,0.99964118,0.999570787,0.99946785,0.9993186,0.99910593,0.99880904,0.998403072,0.997858584,0.997141182,0.99621135,0.995023966,0.993528485,0.991668522,0.989382327,0.986602664,0.983257711,0.979271173,0.97456342,0.969052374,0.962654769,0.955287457,0.946869195,0.93732208,0.926573634,0.914558887,0.901221931,0.886518419,0.870416999,0.85290122,0.833971083,0.813643873,0.791955233,0.768959403,0.744728804,0.719353676,0.692940772,0.665611804,0.637501359,0.608754635,0.579524696,0.549970031,0.520251453,0.490529478,0.460961968,0.431701392,0.402893007,0.37467286,0.347166419,0.32048735,0.294736743,0.270002425,0.246358722,0.223866433,0.202572897,0.182512373,0.163706377,0.146164373,0.129884347,0.114853561,0.101049446,0.0884404257,0.076986894,0.066642195,0.057353653,0.0490636751,0.0417107828,0.0352307148,0.0295574907,0.0246244166,0.0203650557,0.0167141166,0.0136082442,0.0109867034,0.0087919496,0.00697008055,0.00547116203,0.00424943818,0.00326343346,0.00247595203,0.00185399409,0.00136859657,0.000994618051,0.00071047747,0.000497864152,0.000341428356,0.000228464938,0.00014859873,9.34789787e-05,5.64894217e-05,3.24779357e-05,1.75092246e-05,8.64240701e-06,3.73430225e-06,1.26786131e-06,1.92776696e-07,};
static const float win_0_6[]={1.36335345e-07,4.57767612e-07,9.97567554e-07,1.84077624e-06,3.09224833e-06,4.88094383e-06,7.36381799e-06,1.07300075e-05,1.52053863e-05,2.10575054e-05,2.86009363e-05,3.82030121e-05,5.02899893e-05,6.53535899e-05,8.39579952e-05,0.000106747175,0.000134452668,0.000167901671,0.000208025551,0.000255868625,0.000312597229,0.000379509147,0.000458043127,0.000549788703,0.000656496093,0.000780086033,0.000922659819,0.0010865092,0.001274126,0.00148821168,0.00173168664,0.00200769864,0.00231963093,0.00267111068,0.00306601473,0.00350847607,0.00400288915,0.00455391267,0.00516647473,0.00584577024,0.00659726607,0.00742669497,0.00834005512,0.00934360363,0.0104438523,0.0116475578,0.0129617099,0.0143935224,0.0159504171,0.0176400058,0.0194700807,0.0214485861,0.0235835947,0.0258832965,0.0283559617,0.0310099237,0.0338535421,0.036895182,0.0401431806,0.0436058082,0.0472912528,0.0512075722,0.0553626679,0.0597642474,0.0644197986,0.0693365484,0.0745214298,0.0799810365,0.0857216269,0.0917490497,0.098068729,0.104685634,0.111604236,0.118828513,0.126361862,0.134207115,0.142366499,0.150841609,0.159633383,0.168742076,0.178167209,0.187907621,0.19796136,0.208325714,0.218997195,0.229971498,0.241243511,0.25280726,0.264655977,0.276782036,0.289176911,0.301831275,0.314734906,0.327876776,0.341245025,0.354826927,0.368608981,0.382576853,0.396715522,0.411009163,0.425441355,0.439994961,0.45465222,0.469394863,0.484204173,0.499060899,0.51394546,0.528838038,0.543718576,0.558566749,0.57336241,0.588085234,0.602715075,0.617232025,0.631616414,0.645848989,0.659910858,0.673783839,0.68745029,0.700893283,0.714096606,0.727045,0.7397241,0.752120554,0.764221907,0.776016891,0.787495315,0.798648119,0.809467375,0.819946468,0.830079675,0.839862764,0.849292517,0.858366787,0.867084682,0.875446379,0.883453131,0.891107082,0.898411512,0.905370474,0.911989033,0.918272913,0.924228728,0.929863691,0.935185611,0.940202892,0.944924474,0.949359715,0.953518271,0.957410157,0.961045623,0.96443516,0.967589259,0.970518589,0.973233819,0.975745618,0.978064537,0.980201006,0.982165277,0.983967602,0.985617757,0.987125397,0.98849988,0.989750206,0.990885139,0.99191308,0.992841959,0.993679583,0.994433045,0.995109439,0.995715141,0.996256351,0.996738791,0.997167945,0.997548699,0.997885823,0.998183608,0.998446047,0.998676717,0.998879075,0.999056041,0.999210536,0.999344945,0.999461591,0.999562562,0.999649644,0.999724448,0.999788404,0.999842882,0.999888957,0.9999277,0.999959946,0.99998647,1.00000799,1.00002515,1.00003839,1.00004816,1.00005496,1.00005913,1.00006092,1.0000608,1.00005877,1.00005519,1.00005031,1.00004435,1.00003731,1.00002968,1.00002134,1.00001252,1.00000334,0.99999404,0.999984682,0.999975443,0.999966383,0.999957621,0.999949336,0.999941528,0.999934316,0.999927878,0.999922156,0.999917269,0.999913335,0.999910295,0.999908268,0.999907196,0.999907196,0.999908149,0.999910176,0.999913156,0.99991709,0.999921918,0.99992764,0.999934137,0.999941349,0.999949217,0.999957681,0.999966562,0.99997586,0.999985397,0.999995112,1.00000489,1.00001454,1.00002408,1.00003338,1.00004232,1.00005078,1.00005865,1.00006592,1.00007236,1.00007808,1.00008297,1.0000869,1.00008988,1.00009179,1.00009286,1.00009274,1.00009179,1.00008965,1.00008667,1.00008261,1.00007772,1.000072,1.00006545,1.00005817,1.00005031,1.00004172,1.00003278,1.00002337,1.00001371,1.0000037,0.999993682,0.99998349,0.999973357,0.999963224,0.99995321,0.999943376,0.99993366,0.999924064,0.999914587,0.999905109,0.999895573,0.999885738,0.999875546,0.999864578,0.999852657,0.999839306,0.999824166,0.999806523,0.9997859,0.999761462,0.999732316,0.999697566,0.999655962,0.999606311,0.999547124,0.999476731,0.999393344,0.999294996,0.999179363,0.999043941,0.998886049,0.998702645,0.998490512,0.998246014,0.997965276,0.997644246,0.997278214,0.996862471,0.996391773,0.995860577,0.99526298,0.994592726,0.993843138,0.993007302,0.992077827,0.991046965,0.989906728,0.988648713,0.987264156,0.985744119,0.984079301,0.982260108,0.980276704,0.978119195,0.975777209,0.973240614,0.97049886,0.967541456,0.964357972,0.960937798,0.957270682,0.953346252,0.949154437,0.944685459,0.939929724,0.934878111,0.929521918,0.923852861,0.91786325,0.911546052,0.904894829,0.897903919,0.890568554,0.882884681,0.8748492,0.866460025,0.857716084,0.848617196,0.839164436,0.829359889,0.819206893,0.80870986,0.797874272,0.786707044,0.775215983,0.763410211,0.751299858,0.73889631,0.726211846,0.713259816,0.700054646,0.686611593,0.672946632,0.65907681,0.645019531,0.630793154,0.616416335,0.601908267,0.587288618,0.572577178,0.557793975,0.542959273,0.528093219,0.513215959,0.498347521,0.483507633,0.468715757,0.453991085,0.439352304,0.424817562,0.410404533,0.396130294,0.382011205,0.368063033,0.354300767,0.340738595,0.327390045,0.314267725,0.301383466,0.288748264,0.276372313,0.264264882,0.252434462,0.24088861,0.229634136,0.218676925,0.208022103,0.197673932,0.187635899,0.177910715,0.168500274,0.159405768,0.150627658,0.142165691,0.134018898,0.12618573,0.118663922,0.111450672,0.104542568,0.0979356542,0.0916254595,0.0856070295,0.0798749477,0.0744233727,0.069246076,0.0643364564,0.0596875995,0.0552923009,0.0511430874,0.0472322591,0.0435519405,0.0400940813,0.036850512,0.0338129811,0.0309731625,0.0283227116,0.0258532818,0.0235565584,0.0214242823,0.0194482822,0.0176204946,0.0159329921,0.0143779973,0.0129479105,0.0116353221,0.0104330294,0.00933405478,0.0083316518,0.00741932075,0.00659081247,0.005840139,0.00516157458,0.00454966258,0.00399921415,0.00350530911,0.00306329457,0.00266878284,0.00231764605,0.00200601248,0.00173026032,0.00148701016,0.00127311819,0.00108566787,0.000921960978,0.000779508497,0.00065602141,0.000549400807,0.000457728049,0.000379254925,0.00031239356,0.000255706662,0.000207897814,0.000167801816,0.000134375354,0.000106687941,8.3913139e-05,6.5320055e-05,5.02652765e-05,3.81850987e-05,2.8588187e-05,2.10486251e-05,1.51993554e-05,1.07260339e-05,7.3612955e-06,4.87941543e-06,3.09137795e-06,1.84032115e-06,9.97358256e-07,4.57689993e-07,1.36315705e-07,};
static const float win_1_0[]={0.000995908631,0.00381905679,0.0095408326,0.0192165971,0.0338271894,0.0542483181,0.0812077746,0.115217187,0.15649423,0.20493634,0.260116667,0.321281403,0.387347311,0.456949711,0.528519273,0.600352228,0.670689642,0.737804472,0.800092518,0.856140912,0.904827237,0.945368528,0.977350771,1.00080085,1.01617157,1.02431524,1.02641547,1.02385843,1.01813567,1.01079488,1.00340652,0.996783137,0.992099524,0.989220679,0.987965822,0.988127351,0.989480555,0.99178499,0.994784772,0.99821198,1.00179124,1.00524259,1.00828302,1.01063132,1.01201534,1.01218081,1.0108968,1.00796342,1.00322723,0.996605039,0.986828446,0.973125041,0.954063654,0.92838645,0.895091712,0.853476942,0.803209066,0.744473517,0.678078711,0.605397046,0.528207779,0.448655307,0.369187593,0.292456627,0.221071854,0.157314852,0.103052579,0.059827324,0.0287183188,0.00968388468,};
static const float win_1_1[]={0.000614338845,0.00148958282,0.00288410485,0.00493429881,0.00777913025,0.0115491059,0.0163715556,0.0223711617,0.0296615977,0.038356632,0.0485561118,0.0603505559,0.0738228783,0.0890356377,0.10603562,0.124853484,0.145493194,0.167943552,0.192172855,0.218123823,0.245725974,0.274883956,0.305482477,0.337387383,0.370441586,0.404474974,0.439300448,0.474722534,0.510534167,0.546520174,0.582465827,0.618145287,0.653341174,0.687836707,0.721417606,0.753888786,0.785054684,0.814739764,0.842781961,0.869037688,0.893393576,0.915748358,0.93602699,0.954173088,0.970163524,0.984003663,0.995719969,1.00537431,1.01304662,1.01884341,1.02289701,1.02535534,1.02638292,1.02615547,1.02485394,1.02266455,1.01977944,1.01639163,1.01269698,1.00888515,1.00537872,1.00156379,0.998253167,0.995434642,0.99309504,0.991217077,0.989780545,0.988762498,0.988138318,0.987881958,0.987966239,0.988363028,0.989043415,0.989977241,0.991133451,0.99248004,0.993984103,0.995612144,0.99733007,0.999103367,1.00089741,1.00267708,1.00440717,1.00605226,1.00757694,1.00894582,1.01012421,1.011078,1.01177394,1.01218033,1.01226676,1.01200402,1.01136518,1.01032495,1.00886071,1.006953,1.00458622,1.00174987,0.998438656,0.994650006,0.989575684,0.983830333,0.976999938,0.968914092,0.959403813,0.948308647,0.935486019,0.920810103,0.904173255,0.885488212,0.864686489,0.84172374,0.816587567,0.789298654,0.7599172,0.728547454,0.695328295,0.660433412,0.624066114,0.586446166,0.547816038,0.508449972,0.468636155,0.428678989,0.38890326,0.349643141,0.311236084,0.274012834,0.238284722,0.204337984,0.17243059,0.142793983,0.115638591,0.0911582187,0.0695274919,0.0508897528,0.0353343002,0.0228668042,0.0133800507,0.00664050644,};
static const float win_1_2[]={0.000508722791,0.000995908631,0.00168220804,0.00260969717,0.00381905679,0.00534931943,0.00724390615,0.0095408326,0.0122763766,0.0154895028,0.0192165971,0.023493696,0.0283519961,0.0338271894,0.0399493948,0.0467477515,0.0542483181,0.0624777079,0.071458362,0.0812077746,0.0917440057,0.103076495,0.115217187,0.128166571,0.141926438,0.15649423,0.171859324,0.18801342,0.20493634,0.222612306,0.241015121,0.260116667,0.27988711,0.300288022,0.321281403,0.342820853,0.36485967,0.387347311,0.410229504,0.433449447,0.456949711,0.480669647,0.504547358,0.528519273,0.552519619,0.576487243,0.600352228,0.624050975,0.647518277,0.670689642,0.693502903,0.715892732,0.737804472,0.759178698,0.779958665,0.800092518,0.819531858,0.838228881,0.856140912,0.873231709,0.88947022,0.904827237,0.919273615,0.932794034,0.945368528,0.956988394,0.967648625,0.977350771,0.98610276,0.99391222,1.00080085,1.00678778,1.01190126,1.01617157,1.01963639,1.0223366,1.02431524,1.02562129,1.02630341,1.02641547,1.02600789,1.02513742,1.02385843,1.02222693,1.02030051,1.01813567,1.01579213,1.01332593,1.01079488,1.00826514,1.00604689,1.00340652,1.0009774,0.998770475,0.996783137,0.995011866,0.99345237,0.992099524,0.990947604,0.989990234,0.989220679,0.988631785,0.988216102,0.987965822,0.987873077,0.987929702,0.988127351,0.988457561,0.988911569,0.989480555,0.990155339,0.990926683,0.99178499,0.992720664,0.993723929,0.994784772,0.995893121,0.99703896,0.99821198,0.999402046,1.00059831,1.00179124,1.00296986,1.00412381,1.00524259,1.00631571,1.00733268,1.00828302,1.00915647,1.00994253,1.01063132,1.01121271,1.01167727,1.01201534,1.01221776,1.01227582,1.01218081,1.01192439,1.01149893,1.0108968,1.01011097,1.00913513,1.00796342,1.00659072,1.00501311,1.00322723,1.00123107,0.999023557,0.996605039,0.993989468,0.990453899,0.986828446,0.982771695,0.978220642,0.973125041,0.96743238,0.961094677,0.954063654,0.946295321,0.937748909,0.92838645,0.918176234,0.907086134,0.895091712,0.882169604,0.868302524,0.853476942,0.837685227,0.820927501,0.803209066,0.784545064,0.764955461,0.744473517,0.723134816,0.700986028,0.678078711,0.654468656,0.630221188,0.605397046,0.580071568,0.554312944,0.528207779,0.501836956,0.475290298,0.448655307,0.422028124,0.395505786,0.369187593,0.343173295,0.317563295,0.292456627,0.267946392,0.244123131,0.221071854,0.198871911,0.177596763,0.157314852,0.138090342,0.119983748,0.103052579,0.0873508528,0.0729281157,0.059827324,0.0480817892,0.0377113521,0.0287183188,0.0210835207,0.0147628943,0.00968388468,0.00564216869,};
static const float win_1_3[]={0.000459588628,0.00079193234,0.00122792716,0.00178365328,0.0024795495,0.00332979951,0.00435353536,0.00556496531,0.00698610814,0.00862988271,0.0105134342,0.012650826,0.0150609044,0.0177559126,0.0207547601,0.0240681376,0.0277120788,0.0316993333,0.0360460952,0.0407612883,0.0458603799,0.0513513684,0.0572478026,0.0635585487,0.0702945068,0.0774598718,0.0850663558,0.0931164175,0.101616293,0.110569082,0.119978927,0.12984173,0.140162379,0.150937155,0.162163228,0.173835412,0.185952038,0.198500887,0.211477861,0.22487326,0.238676399,0.252872944,0.267454714,0.282403141,0.297705024,0.313341916,0.329297662,0.345549017,0.362079501,0.378864855,0.39588517,0.413114369,0.430530816,0.44810766,0.465822786,0.483646631,0.501556456,0.519522786,0.537519693,0.555518389,0.573495805,0.591418684,0.609262288,0.626998127,0.644600213,0.662038445,0.679290652,0.69632566,0.713119447,0.729646981,0.745886445,0.761809468,0.777395844,0.792620897,0.807466626,0.821910143,0.835934341,0.849518061,0.862648606,0.875308335,0.887488484,0.899173796,0.910352767,0.921014428,0.931155622,0.940764487,0.949838221,0.958373249,0.966369033,0.973823547,0.980744243,0.987129807,0.992987216,0.998324156,1.0031507,1.00747371,1.01130915,1.01466668,1.01756334,1.02001464,1.02203989,1.02365422,1.0248816,1.02573931,1.02625072,1.02643669,1.02632082,1.02592289,1.02526999,1.02438223,1.02328491,1.02200079,1.02055597,1.01897144,1.01727521,1.0154891,1.01363933,1.01174772,1.00984085,1.00793982,1.00640738,1.00437486,1.00246978,1.00068903,0.999034584,0.997502506,0.996094167,0.994805098,0.99363625,0.992582679,0.991644681,0.99081707,0.990099847,0.98948735,0.988979459,0.988570154,0.988259196,0.988040447,0.98791337,0.987871826,0.987915099,0.988036871,0.988236427,0.98850739,0.988848686,0.989253938,0.989722013,0.990246356,0.990825653,0.991453171,0.992127657,0.992842257,0.993595481,0.994380474,0.995195746,0.996034205,0.99689436,0.997769177,0.998657107,0.999550998,1.00044918,1.00134468,1.00223577,1.0031153,1.00398159,1.0048275,1.00565124,1.00644577,1.0072093,1.00793481,1.0086205,1.00925934,1.00984979,1.01038468,1.01086283,1.01127708,1.01162624,1.01190352,1.01210797,1.01223278,1.01227713,1.01223457,1.01210427,1.01188028,1.01156199,1.01114333,1.01062429,1.00999916,1.00926805,1.00842571,1.00747275,1.00640452,1.00522196,1.00392115,1.00250375,1.00096631,0.999311388,0.997536242,0.995644212,0.993633389,0.990867734,0.988232613,0.985362053,0.982230484,0.978818595,0.975102603,0.971063197,0.966675997,0.961924195,0.956784189,0.951239407,0.945270002,0.938861549,0.931994617,0.924659193,0.916838348,0.908521831,0.899696708,0.890356183,0.8804878,0.870088398,0.859149218,0.847668648,0.835642874,0.823075414,0.809964955,0.796320438,0.782146037,0.767454207,0.752256334,0.736570179,0.720409036,0.703797519,0.686754286,0.669304192,0.651471078,0.633285463,0.614768565,0.595955372,0.576873779,0.557553411,0.538031995,0.518345416,0.498525947,0.478615612,0.458647311,0.438664377,0.418704689,0.398812294,0.379026294,0.359391481,0.339947402,0.320739239,0.301806122,0.283190608,0.264928848,0.24706085,0.229620114,0.21264337,0.196160182,0.180203527,0.16479969,0.149978757,0.135764346,0.122184254,0.109260201,0.0970178843,0.0854768008,0.0746597648,0.0645825416,0.0552628115,0.0467097685,0.0389324427,0.0319297612,0.0256981067,0.0202225931,0.0154831782,0.0114492495,0.00807648245,0.00530004408,};
static const float win_1_4[]={0.000409010652,0.000614338845,0.000857175968,0.00114701502,0.00148958282,0.00188977038,0.00235300069,0.00288410485,0.00348821376,0.0041700406,0.00493429881,0.00578707643,0.00673381193,0.00777913025,0.00892704539,0.0101820286,0.0115491059,0.0130334925,0.0146395126,0.0163715556,0.0182345547,0.0202330947,0.0223711617,0.024652373,0.0270810202,0.0296615977,0.0323988497,0.0352960192,0.038356632,0.0415844806,0.0449832231,0.0485561118,0.0523059666,0.0562362447,0.0603505559,0.0646518618,0.0691419542,0.0738228783,0.0786970928,0.0837676153,0.0890356377,0.0945019946,0.10016802,0.10603562,0.112106025,0.118378855,0.124853484,0.131530285,0.138410315,0.145493194,0.152777299,0.160260886,0.167943552,0.175824568,0.18390201,0.192172855,0.200634435,0.209285393,0.218123823,0.227146223,0.236347914,0.245725974,0.255277157,0.264998108,0.274883956,0.284929633,0.29513064,0.305482477,0.315979958,0.326616973,0.337387383,0.348285586,0.359305769,0.370441586,0.38168624,0.393032968,0.404474974,0.416005105,0.42761597,0.439300448,0.451051623,0.462861598,0.474722534,0.486626685,0.498566449,0.510534167,0.522521257,0.534519076,0.546520174,0.558517277,0.570502162,0.582465827,0.594399154,0.606294811,0.618145287,0.629942179,0.641676903,0.653341174,0.664927781,0.676429272,0.687836707,0.699142158,0.710337937,0.721417606,0.732374609,0.743200779,0.753888786,0.764431536,0.774822295,0.785054684,0.795122325,0.805019379,0.814739764,0.824277461,0.833626688,0.842781961,0.851738632,0.86049211,0.869037688,0.877372026,0.885492802,0.893393576,0.901072681,0.90852493,0.915748358,0.922741413,0.929501772,0.93602699,0.942314327,0.948363006,0.954173088,0.959743857,0.965073824,0.970163524,0.975014329,0.979627728,0.984003663,0.988142669,0.992047071,0.995719969,0.999164104,1.00238132,1.00537431,1.00814676,1.01070309,1.01304662,1.0151813,1.01711166,1.01884341,1.02038169,1.02173114,1.02289701,1.02388549,1.02470303,1.02535534,1.02584827,1.02618837,1.02638292,1.02643812,1.02636015,1.02615547,1.02583146,1.02539539,1.02485394,1.02421343,1.02348113,1.02266455,1.02177095,1.02080691,1.01977944,1.01869595,1.01756442,1.01639163,1.01518488,1.01395082,1.01269698,1.01143074,1.0101583,1.00888515,1.00759268,1.00680566,1.00537872,1.00404906,1.00277841,1.00156379,1.00040495,0.999301493,0.998253167,0.997259557,0.996320188,0.995434642,0.994602382,0.993822694,0.99309504,0.992418706,0.991792977,0.991217077,0.990690291,0.990211725,0.989780545,0.989395857,0.989056826,0.988762498,0.98851192,0.988304198,0.988138318,0.988013327,0.987928212,0.987881958,0.987873554,0.987901986,0.987966239,0.988065183,0.988197803,0.988363028,0.988559783,0.988786936,0.989043415,0.989328027,0.989639699,0.989977241,0.990339518,0.990725279,0.991133451,0.991562784,0.992012024,0.99248004,0.992965519,0.993467331,0.993984103,0.994514704,0.995057821,0.995612144,0.996176481,0.99674958,0.99733007,0.997916698,0.998508275,0.999103367,0.999700367,1.00029969,1.00089741,1.00149393,1.00208759,1.00267708,1.00326109,1.00383818,1.00440717,1.00496674,1.00551558,1.00605226,1.00657558,1.00708425,1.00757694,1.00805223,1.00850904,1.00894582,1.00936151,1.00975478,1.01012421,1.01046872,1.01078713,1.011078,1.01134026,1.0115726,1.01177394,1.0119431,1.012079,1.01218033,1.01224613,1.01227534,1.01226676,1.01221931,1.01213217,1.01200402,1.01183426,1.01162159,1.01136518,1.01106429,1.01071775,1.01032495,1.00988507,1.00939727,1.00886071,1.00827491,1.00763917,1.006953,1.00621569,1.00542688,1.00458622,1.00369334,1.00274801,1.00174987,1.00069904,0.999595225,0.998438656,0.997229338,0.995967269,0.994650006,0.993240416,0.991251171,0.989575684,0.987771332,0.985857725,0.983830333,0.981682241,0.97940743,0.976999938,0.974452853,0.971759737,0.968914092,0.965910137,0.962742209,0.959403813,0.955888987,0.952192247,0.948308647,0.944233239,0.939960718,0.935486019,0.930805326,0.925914705,0.920810103,0.915487349,0.909942627,0.904173255,0.898176372,0.891948998,0.885488212,0.878791928,0.871858597,0.864686489,0.857273817,0.849619567,0.84172374,0.833586276,0.825207472,0.816587567,0.807728052,0.798631132,0.789298654,0.779733121,0.769937932,0.7599172,0.74967587,0.739217699,0.728547454,0.717671454,0.706596255,0.695328295,0.683873892,0.672239542,0.660433412,0.648464382,0.636339486,0.624066114,0.61165303,0.599109888,0.586446166,0.573669493,0.560788095,0.547816038,0.534761965,0.521636486,0.508449972,0.495213509,0.48193875,0.468636155,0.45531708,0.441993982,0.428678989,0.415383786,0.402121097,0.38890326,0.375742555,0.362651527,0.349643141,0.336729079,0.323922813,0.311236084,0.298680782,0.286269456,0.274012834,0.261922836,0.250009835,0.238284722,0.226757854,0.215439096,0.204337984,0.193463683,0.182825029,0.17243059,0.162288636,0.152407184,0.142793983,0.133456588,0.124402389,0.115638591,0.107172154,0.0990098566,0.0911582187,0.0836234465,0.0764114037,0.0695274919,0.0629765615,0.0567628406,0.0508897528,0.0453598313,0.0401745737,0.0353343002,0.0308380611,0.0266835541,0.0228668042,0.0193823632,0.016223127,0.0133800507,0.0108421864,0.0085967537,0.00664050644,0.00517270295,};
static const float win_1_5[]={9.75247545e-08,6.41356849e-07,1.88872264e-06,4.37003746e-06,8.85053487e-06,1.64097619e-05,2.85265469e-05,4.71757776e-05,7.49369574e-05,0.000115113864,0.000171864056,0.000250336452,0.000356814737,0.000498863636,0.00068547501,0.000927209505,0.00123633002,0.0016269217,0.00211499492,0.00271856366,0.00345769688,0.004354537,0.00543327769,0.006720101,0.00824306626,0.0100319488,0.012118022,0.014533788,0.0173126478,0.0204885192,0.0240953956,0.028166851,0.0327355117,0.037832465,0.0434866548,0.0497242436,0.0565679595,0.0640364513,0.0721436515,0.0808981732,0.0903027356,0.100353681,0.11104054,0.122345708,0.134244218,0.14670366,0.159684196,0.173138753,0.187013358,0.201247633,0.2157754,0.230525494,0.245422661,0.260388613,0.27534306,0.290205121,0.304894298,0.319332004,0.333442599,0.347154707,0.360402405,0.373126328,0.385274231,0.396802038,0.407674283,0.417864561,0.427355647,0.436139554,0.444217294,0.451598674,0.458301634,0.464351624,0.469781011,0.474628091,0.478936344,0.482753456,0.486130476,0.48912096,0.491780102,0.49416405,0.496329218,0.498331696,0.500226736,0.502068341,0.503908992,0.505799294,0.507787943,0.509921193,0.51224333,0.514795899,0.517618179,0.520746589,0.524214983,0.528054178,0.532292068,0.536953092,0.542058468,0.547625661,0.553668439,0.5601964,0.567215025,0.574725628,0.582724869,0.591205239,0.600154579,0.609556615,0.619390607,0.629631937,0.640252173,0.651219368,0.662498534,0.674051821,0.685839176,0.697818637,0.70994693,0.72217989,0.734472811,0.74678117,0.759061038,0.771269321,0.783364296,0.795306087,0.807056785,0.818580806,0.82984519,0.840819776,0.851477146,0.861792982,0.871745944,0.881317794,0.890493214,0.899259806,0.907608211,0.915531754,0.923026323,0.930090547,0.936725318,0.942933977,0.948721945,0.954096615,0.959067523,0.963645637,0.967843831,0.97167629,0.975158513,0.978307128,0.98113966,0.983674467,0.985930443,0.987926722,0.989682734,0.991217852,0.992551088,0.993701279,0.994686544,0.995524466,0.996231675,0.996824026,0.997316301,0.997722328,0.998054802,0.998325348,0.998544455,0.99872154,0.998864949,0.998981953,0.999078929,0.999161184,0.999233246,0.999298692,0.999360621,0.99942112,0.999481916,0.999544203,0.999608576,0.999675393,0.999744534,0.999815881,0.999888837,0.999962866,1.00003707,1.00011098,1.00018346,1.0002538,1.00032115,1.00038469,1.00044382,1.0004977,1.00054598,1.00058782,1.00062299,1.00065112,1.00067186,1.00068521,1.00069082,1.00068903,1.00067961,1.0006628,1.00063896,1.00060833,1.00057113,1.0005281,1.00047958,1.00042605,1.00036812,1.00030637,1.00024164,1.00017428,1.00010526,1.00003517,0.999964774,0.999894679,0.999825716,0.999758482,0.999693692,0.999632061,0.999574184,0.999520719,0.999472201,0.999429166,0.999392092,0.999361455,0.999337614,0.999320924,0.999311507,0.999309599,0.999315262,0.999328554,0.999349296,0.99937737,0.999412537,0.999454379,0.99950248,0.999556363,0.999615431,0.999678969,0.999746263,0.999816597,0.999889076,0.999962866,1.00003707,1.00011098,1.00018346,1.0002538,1.00032115,1.00038469,1.00044382,1.0004977,1.00054598,1.00058782,1.00062299,1.00065112,1.00067186,1.00068521,1.00069082,1.00068903,1.00067961,1.0006628,1.00063896,1.00060833,1.00057113,1.0005281,1.00047958,1.00042605,1.00036812,1.00030637,1.00024164,1.00017428,1.00010526,1.00003517,0.999964774,0.999894679,0.999825716,0.999758482,0.999693692,0.999632061,0.999574184,0.999520719,0.999472201,0.999429166,0.999392092,0.999361455,0.999337614,0.999320924,0.999311507,0.999309599,0.999315262,0.999328554,0.999349296,0.99937737,0.999412537,0.999454379,0.99950248,0.999556363,0.999615431,0.999678969,0.999746263,0.999816597,0.999889076,0.999962866,1.00003707,1.00011075,1.00018275,1.00025201,1.00031757,1.00037789,1.00043166,1.00047719,1.0005126,1.00053585,1.00054419,1.00053477,1.00050414,1.00044823,1.00036228,1.00024092,1.00007784,0.99986589,0.999597013,0.999261975,0.998850465,0.998351038,0.997750819,0.997035682,0.996189833,0.995196044,0.994035423,0.992687285,0.991129041,0.989336133,0.987281919,0.984937787,0.982272744,0.979253709,0.975845337,0.972010076,0.967708528,0.962899387,0.957539737,0.951585472,0.944991708,0.937713265,0.929705381,0.920924187,0.911327481,0.900875807,0.889532745,0.877266228,0.864049077,0.849859893,0.834683776,0.818513036,0.801347792,0.783196509,0.764076352,0.744013488,0.723043203,0.701209962,0.67856735,0.655177712,0.631111801,0.606448233,0.58127296,0.555678487,0.529762745,0.503628492,0.477382004,0.451132149,0.424988985,0.399062574,0.373461813,0.348293066,0.323658854,0.299656719,0.276377857,0.253906131,0.232316986,0.211676583,0.19204095,0.173455566,0.155954808,0.139561892,0.124288827,0.110136725,0.0970961973,0.0851479918,0.0742638558,0.0644074306,0.0555353425,0.0475983508,0.0405424982,0.0343103148,0.0288419761,0.0240764078,0.0199523065,0.0164090749,0.0133876354,0.0108311241,0.00868547149,0.00689984858,0.00542699778,0.00422345474,0.00324966502,0.00247000973,0.00185274973,0.00136990519,0.000997077208,0.000713227608,0.000500426511,0.000343578606,0.000230138365,0.000149821601,9.43217892e-05,5.70367956e-05,3.28110509e-05,1.76969679e-05,8.73827867e-06,3.77677043e-06,1.28252009e-06,1.95021386e-07,};
static const float win_1_6[]={6.89548827e-08,2.31516253e-07,5.04477669e-07,9.30795125e-07,1.56340695e-06,2.4673875e-06,3.72189174e-06,5.42224188e-06,7.68219343e-06,1.06363877e-05,1.44429905e-05,1.92865264e-05,2.53808976e-05,3.29725954e-05,4.23441015e-05,5.38174427e-05,6.77579446e-05,8.45781324e-05,0.000104741775,0.000128768093,0.000157236034,0.000190788676,0.000230137754,0.000276068167,0.000329442613,0.000391206064,0.000462390453,0.000544119219,0.000637611491,0.000744186866,0.000865269103,0.0010023904,0.00115719519,0.00133144355,0.00152701419,0.00174590782,0.00199024938,0.00226228987,0.00256440835,0.00289911311,0.00326904119,0.00367696048,0.00412576646,0.00461848313,0.00515825953,0.00574836833,0.00639220094,0.00709326472,0.00785517693,0.00868165866,0.00957652833,0.0105436966,0.0115871523,0.0127109587,0.0139192408,0.0152161736,0.0166059695,0.0180928707,0.0196811259,0.0213749874,0.0231786855,0.0250964165,0.0271323286,0.029290501,0.0315749235,0.0339894816,0.0365379415,0.0392239206,0.042050872,0.0450220704,0.0481405817,0.0514092445,0.0548306555,0.0584071539,0.0621407814,0.0660332814,0.0700860694,0.0743002295,0.0786764771,0.0832151473,0.0879162028,0.0927791744,0.0978031904,0.102986939,0.108328678,0.1138262,0.119476855,0.125277504,0.131224588,0.137314022,0.143541321,0.149901465,0.156389058,0.162998185,0.169722542,0.17655538,0.183489516,0.190517426,0.19763118,0.204822496,0.212082773,0.219403118,0.226774365,0.234187096,0.241631702,0.249098375,0.256577194,0.264058143,0.271531105,0.278985947,0.286412567,0.29380095,0.301141053,0.308423132,0.315637439,0.322774589,0.329825372,0.336780816,0.3436324,0.350371778,0.356991231,0.36348325,0.36984089,0.376057625,0.382127434,0.388044775,0.393804729,0.399402857,0.404835284,0.410098761,0.415190488,0.420108408,0.424850911,0.429417044,0.43380636,0.438019037,0.442055762,0.445917755,0.449606776,0.453125089,0.456475437,0.459661037,0.462685496,0.465552896,0.468267679,0.470834643,0.473258942,0.475546002,0.477701575,0.47973159,0.481642276,0.483440012,0.485131353,0.486723036,0.488221824,0.489634633,0.490968436,0.492230296,0.493427187,0.494566232,0.495654404,0.496698737,0.497706175,0.498683631,0.499637932,0.50057584,0.501503944,0.50242883,0.503356874,0.504294455,0.505247772,0.506222844,0.507225573,0.50826174,0.509337008,0.51045686,0.511626601,0.512851536,0.514136553,0.515486538,0.516906321,0.518400311,0.51997292,0.52162832,0.523370624,0.525203526,0.527130723,0.529155731,0.53128171,0.533511758,0.535848677,0.53829509,0.540853441,0.543525815,0.54631424,0.549220264,0.552245498,0.555391014,0.558657765,0.562046468,0.56555748,0.569190919,0.572946727,0.576824427,0.580823362,0.584942579,0.589180827,0.593536615,0.598008096,0.602593303,0.607289851,0.612095237,0.61700654,0.622020781,0.627134562,0.632344365,0.637646437,0.643036783,0.648511291,0.65406549,0.65969497,0.665394902,0.67116046,0.676986754,0.68286854,0.688800693,0.694777906,0.700794756,0.70684582,0.712925553,0.719028473,0.725149035,0.731281698,0.737420917,0.743561149,0.74969697,0.755823016,0.761933863,0.768024206,0.774088979,0.780123055,0.786121488,0.792079389,0.79799211,0.803855121,0.809663892,0.81541431,0.821102202,0.826723635,0.832274854,0.837752342,0.843152702,0.848472714,0.85370928,0.858859718,0.863921225,0.868891478,0.873768151,0.878549099,0.883232594,0.887816727,0.892300129,0.896681368,0.900959313,0.90513289,0.909201384,0.913164079,0.91702044,0.920770228,0.924413145,0.92794925,0.931378603,0.934701502,0.937918305,0.941029668,0.944036126,0.946938515,0.949737847,0.952435017,0.955031335,0.957527936,0.959926248,0.962227762,0.964434028,0.966546714,0.96856761,0.970498502,0.972341299,0.974098027,0.975770652,0.977361381,0.978872299,0.980305672,0.981663704,0.98294872,0.984162986,0.985308945,0.986388862,0.987405181,0.988360226,0.989256442,0.990096152,0.990881741,0.991615593,0.992299914,0.992937148,0.993529499,0.994079232,0.994588435,0.995059371,0.995494127,0.99589473,0.996263146,0.996601343,0.996911168,0.997194529,0.997453094,0.997688591,0.997902572,0.998096704,0.998272479,0.998431206,0.998574317,0.998703122,0.998818815,0.998922586,0.99901545,0.99909848,0.999172688,0.999238908,0.999298036,0.999350786,0.999397993,0.999440193,0.999478102,0.999512255,0.99954313,0.999571264,0.999597073,0.999620855,0.999643087,0.999663949,0.999683797,0.999702871,0.999721289,0.99973923,0.999756932,0.999774456,0.99979192,0.999809384,0.999826908,0.999844551,0.999862373,0.999880314,0.999898374,0.999916673,0.999935031,0.999953508,0.999972105,0.999990702,1.0000093,1.00002778,1.00004625,1.00006461,1.00008273,1.00010061,1.00011826,1.00013554,1.00015235,1.0001688,1.00018466,1.00020003,1.00021482,1.000229,1.00024247,1.00025523,1.00026727,1.00027859,1.00028908,1.00029874,1.00030744,1.00031543,1.00032246,1.00032854,1.00033379,1.00033808,1.0003413,1.00034368,1.00034511,1.00034559,1.00034511,1.00034368,1.00034142,1.00033808,1.00033391,1.00032878,1.00032282,1.00031602,1.00030828,1.00029981,1.00029051,1.0002805,1.00026977,1.00025833,1.00024617,1.00023329,1.00021994,1.00020599,1.00019157,1.00017655,1.00016105,1.00014532,1.0001291,1.00011253,1.00009573,1.00007868,1.00006139,1.00004399,1.00002646,1.00000882,0.999991179,0.999973595,0.999956071,0.999938667,0.999921381,0.999904335,0.999887526,0.999870956,0.999854743,0.999838948,0.999823511,0.99980855,0.999794066,0.999780118,0.999766707,0.999753952,0.999741793,0.999730289,0.99971956,0.999709487,0.999700248,0.999691784,0.999684095,0.9996773,0.99967128,0.999666214,0.999662042,0.999658763,0.999656379,0.999655008,0.999654531,0.999654949,0.999656379,0.999658763,0.999662101,0.999666333,0.999671519,0.999677658,0.999684691,0.999692619,0.999701381,0.999711037,0.999721527,0.999732792,0.999744833,0.999757588,0.999771118,0.999785244,0.999800026,0.999815404,0.999831259,0.999847651,0.999864519,0.999881744,0.999899328,0.999917269,0.999935389,0.999953687,0.999972165,0.999990702,1.0000093,1.00002778,1.00004625,1.00006461,1.00008273,1.00010061,1.00011826,1.00013554,1.00015235,1.0001688,1.00018466,1.00020003,1.00021482,1.000229,1.00024247,1.00025523,1.00026727,1.00027859,1.00028908,1.00029874,1.00030744,1.00031543,1.00032246,1.00032854,1.00033379,1.00033808,1.0003413,1.00034368,1.00034511,1.00034559,1.00034511,1.00034368,1.00034142,1.00033808,1.00033391,1.00032878,1.00032282,1.00031602,1.00030828,1.00029981,1.00029051,1.0002805,1.00026977,1.00025833,1.00024617,1.00023329,1.00021994,1.00020599,1.00019157,1.00017655,1.00016105,1.00014532,1.0001291,1.00011253,1.00009573,1.00007868,1.00006139,1.00004399,1.00002646,1.00000882,0.999991179,0.999973595,0.999956071,0.999938667,0.999921381,0.999904335,0.999887526,0.999870956,0.999854743,0.999838948,0.999823511,0.99980855,0.999794066,0.999780118,0.999766707,0.999753952,0.999741793,0.999730289,0.99971956,0.999709487,0.999700248,0.999691784,0.999684095,0.9996773,0.99967128,0.999666214,0.999662042,0.999658763,0.999656379,0.999655008,0.999654531,0.999654949,0.999656379,0.999658763,0.999662101,0.999666333,0.999671519,0.999677658,0.999684691,0.999692619,0.999701381,0.999711037,0.999721527,0.999732792,0.999744833,0.999757588,0.999771118,0.999785244,0.999800026,0.999815404,0.999831259,0.999847651,0.999864519,0.999881744,0.999899328,0.999917269,0.999935389,0.999953687,0.999972165,0.999990702,1.0000093,1.00002778,1.00004613,1.00006425,1.00008214,1.00009966,1.00011683,1.0001334,1.00014925,1.00016439,1.00017869,1.00019193,1.00020397,1.00021482,1.00022411,1.00023162,1.00023735,1.0002408,1.00024199,1.00024033,1.00023568,1.00022769,1.00021589,1.00020003,1.00017941,1.00015378,1.00012243,1.00008476,1.00004041,0.999988317,0.999928057,0.999858677,0.999779403,0.999689281,0.999587417,0.999472737,0.99934411,0.999200404,0.999040425,0.998862803,0.998666167,0.998449087,0.998209953,0.997947097,0.997658968,0.99734354,0.996999085,0.996623516,0.996214747,0.995770633,0.995288789,0.994766831,0.994202256,0.993592501,0.992934704,0.992226064,0.991463542,0.990644097,0.989764392,0.988821149,0.98781085,0.986729801,0.985574305,0.98434037,0.983024001,0.981621027,0.980127096,0.978537738,0.976848423,0.975054383,0.97315073,0.971132576,0.968994796,0.966732204,0.964339435,0.961811244,0.959142029,0.956326306,0.953358531,0.950233042,0.946944118,0.943486214,0.939853668,0.936040819,0.932042122,0.927852154,0.923465431,0.918876767,0.914081097,0.909073353,0.903848886,0.898403168,0.892731845,0.886831045,0.880696952,0.874326289,0.867715955,0.860863328,0.853766203,0.846422672,0.838831365,0.830991328,0.822902203,0.81456393,0.805977046,0.797142744,0.788062632,0.778738797,0.76917398,0.759371519,0.749335289,0.73906976,0.728579819,0.71787113,0.70694977,0.695822597,0.684496701,0.67298007,0.66128087,0.649408042,0.637370944,0.62517941,0.612843752,0.600374699,0.587783396,0.575081468,0.562280834,0.549393654,0.536432624,0.523410499,0.510340393,0.497235566,0.484109521,0.470975846,0.457848251,0.444740474,0.431666315,0.418639511,0.405673832,0.392782807,0.379979968,0.367278606,0.354691803,0.342232376,0.329912812,0.317745358,0.305741847,0.293913603,0.282271683,0.270826548,0.259588152,0.248565957,0.237768814,0.227205008,0.216882199,0.20680739,0.196986943,0.187426537,0.178131178,0.169105172,0.160352126,0.151874945,0.143675804,0.135756254,0.12811707,0.120758407,0.113679729,0.106879868,0.100357018,0.0941087753,0.088132143,0.0824235976,0.0769790635,0.0717940032,0.0668634027,0.0621818379,0.0577434972,0.0535422154,0.0495715141,0.0458246432,0.0422946103,0.0389742292,0.0358561426,0.0329328589,0.0301968064,0.027640339,0.0252557844,0.023035476,0.0209717732,0.0190570969,0.01728395,0.0156449396,0.0141328052,0.0127404351,0.0114608845,0.0102873892,0.00921338331,0.00823251065,0.0073386333,0.00652584061,0.00578845851,0.00512105133,0.00451842742,0.00397564145,0.00348799396,0.00305103138,0.00266054412,0.00231256452,0.00200336217,0.00172943878,0.00148752402,0.00127456791,0.00108773448,0.000924394117,0.000782115792,0.000658658682,0.000551963516,0.0004601439,0.000381477352,0.000314396282,0.00025747894,0.000209440448,0.000169123945,0.000135491777,0.000107617016,8.46750627e-05,6.59356156e-05,5.07548866e-05,3.85681342e-05,2.88825358e-05,2.1270409e-05,1.53627971e-05,1.0843446e-05,7.44312956e-06,4.93438165e-06,3.12659085e-06,1.86147406e-06,1.00890213e-06,4.6301281e-07,1.37904777e-07,};
static const float win_2_0[]={0.0029506085,0.0071754111,0.0137695372,0.0230953563,0.0354036242,0.05082893,0.0694696307,0.0913884267,0.116604574,0.145073548,0.176711172,0.211342946,0.248768613,0.288701087,0.330823869,0.37481454,0.420308024,0.466904908,0.514185369,0.56171006,0.609026372,0.655671,0.701218367,0.745240688,0.787369192,0.827223837,0.864513695,0.898977399,0.930407524,0.958599925,0.983447731,1.00488281,1.02285385,1.03740489,1.04859793,1.05656183,1.06149375,1.06362581,1.06325972,1.060745,1.05643594,1.05069494,1.04392433,1.03647721,1.02872872,1.02106488,1.01400661,1.00727451,1.00172246,0.997309566,0.993985176,0.991683364,0.990325332,0.989822626,0.990074754,0.99097532,0.992412865,0.994273126,0.996439159,0.998791635,1.00120986,1.00357354,1.00575984,1.00764513,1.00910687,1.01002479,1.01028204,1.0097692,1.00838637,1.00605118,1.00269771,0.998280466,0.992778003,0.986186922,0.977634192,0.967447281,0.955129743,0.940389872,0.922959268,0.902607322,0.879202664,0.852641761,0.822881281,0.789971709,0.754030347,0.715255737,0.673936903,0.630414724,0.585078835,0.538398504,0.490833759,0.442885816,0.395091027,0.348004341,0.302196711,0.258227438,0.216641411,0.177922115,0.142480552,0.110652193,0.0826995969,0.0588334501,0.039203085,0.0238629114,0.0126976222,0.00535665359,};
static const float win_2_1[]={0.00220824871,0.00381014426,0.0059155249,0.0085836146,0.0118759722,0.0158335306,0.0204918645,0.0258883592,0.0320415907,0.0389616713,0.046674218,0.0551849343,0.0645038411,0.0746411085,0.0856000185,0.0973846689,0.109993599,0.123419277,0.137655452,0.15269044,0.168513358,0.185093105,0.202410415,0.220450372,0.239167944,0.258526176,0.27849853,0.29903844,0.320104867,0.341658622,0.363660038,0.386062682,0.408815265,0.431871057,0.455176979,0.478676587,0.50232482,0.526060939,0.549831271,0.573576868,0.597241342,0.620770216,0.644099653,0.667176366,0.68995887,0.712379992,0.734396398,0.755966663,0.777036965,0.797558129,0.817490876,0.836796939,0.855447292,0.873400807,0.890635729,0.907128751,0.922848761,0.937763333,0.951860189,0.965130627,0.977556527,0.989126205,0.999846935,1.00970078,1.01868224,1.02681458,1.0340898,1.04051197,1.04610837,1.05088568,1.05486286,1.05807221,1.06053412,1.0622766,1.06333816,1.06375551,1.06356633,1.06282151,1.06155992,1.05981708,1.05765879,1.05512011,1.05223989,1.04908776,1.04569864,1.0421083,1.03838098,1.03455281,1.03067195,1.02679169,1.02295554,1.01920736,1.01587284,1.01221013,1.00884557,1.00577855,1.00300264,1.00051463,0.998309255,0.996378601,0.994718134,0.993316233,0.992166936,0.991258621,0.990581095,0.990123093,0.989873707,0.989818692,0.989946783,0.990243196,0.990695536,0.991288543,0.992009461,0.992842674,0.99377507,0.994790375,0.995875537,0.997014344,0.998192847,0.999394476,1.00060582,1.00181043,1.00299454,1.00414157,1.00523686,1.00626397,1.00720894,1.00805485,1.00878799,1.00939178,1.00985301,1.01015532,1.01028597,1.01022983,1.00997543,1.00950849,1.00881851,1.00789487,1.00672877,1.00530994,1.00363457,1.00169361,0.999485672,0.997006357,0.994254708,0.991231978,0.987937093,0.984375119,0.979890943,0.975269854,0.970180511,0.964579999,0.958425522,0.951683998,0.944320261,0.936290622,0.927580535,0.918153405,0.907976508,0.897050083,0.88535136,0.872857928,0.859579802,0.845502615,0.830619931,0.814946651,0.798489392,0.781262457,0.763291776,0.744590819,0.725199282,0.705153644,0.684490561,0.663245201,0.641477168,0.619235337,0.596559107,0.573520005,0.550173879,0.526568532,0.502781153,0.478860885,0.454877883,0.43089813,0.406993955,0.383234024,0.359680086,0.336408108,0.313496411,0.291010559,0.269019574,0.247584343,0.226788431,0.206677765,0.187310338,0.168739647,0.151012376,0.134171844,0.118254662,0.103290737,0.0893117338,0.0763429776,0.0644077286,0.0535243712,0.0437084436,0.034966711,0.0272984635,0.0206895806,0.0151125127,0.010522875,0.00685547292,0.00402351096,};
static const float win_2_2[]={0.001970849,0.0029506085,0.00412447704,0.00552688679,0.0071754111,0.00908757746,0.0112819104,0.0137695372,0.0165600274,0.0196650904,0.0230953563,0.0268612895,0.0309632551,0.0354036242,0.040191561,0.0453331396,0.05082893,0.0566815436,0.0628935322,0.0694696307,0.0764106289,0.0837160051,0.0913884267,0.0994293988,0.107834727,0.116604574,0.125736505,0.135226816,0.145073548,0.155273825,0.165822193,0.176711172,0.187928781,0.199473187,0.211342946,0.223524556,0.236003101,0.248768613,0.261813819,0.275129169,0.288701087,0.302514046,0.316558808,0.330823869,0.345295578,0.359963983,0.37481454,0.389831811,0.405001014,0.420308024,0.435739517,0.451277822,0.466904908,0.482609034,0.498375475,0.514185369,0.530021489,0.54586935,0.56171006,0.577528179,0.593304694,0.609026372,0.624674201,0.640227556,0.655671,0.670995951,0.686184585,0.701218367,0.71607846,0.730756104,0.745240688,0.759515107,0.773561954,0.787369192,0.800923109,0.814211369,0.827223837,0.83995235,0.852386117,0.864513695,0.876324058,0.887814283,0.898977399,0.909803331,0.920284331,0.930407524,0.940169632,0.949567795,0.958599925,0.967260242,0.975545168,0.983447731,0.990971982,0.998119295,1.00488281,1.01125777,1.01724434,1.02285385,1.02808738,1.03293705,1.03740489,1.04150164,1.04523242,1.04859793,1.05160344,1.05425501,1.05656183,1.05853403,1.06017411,1.06149375,1.0624994,1.06320572,1.06362581,1.06376481,1.06363773,1.06325972,1.06264699,1.06180501,1.060745,1.05948496,1.05804539,1.05643594,1.05466223,1.05274045,1.05069494,1.04853892,1.04627895,1.04392433,1.04149544,1.03901005,1.03647721,1.03390789,1.03131986,1.02872872,1.02614832,1.02358985,1.02106488,1.01856267,1.01655769,1.01400661,1.01162958,1.00938594,1.00727451,1.00529611,1.00344527,1.00172246,1.00012791,0.998657525,0.997309566,0.996083558,0.99497658,0.993985176,0.993107557,0.99234128,0.991683364,0.991130054,0.99067831,0.990325332,0.990067542,0.989901304,0.989822626,0.989827871,0.989913225,0.990074754,0.990308285,0.990609825,0.99097532,0.991400301,0.991880953,0.992412865,0.992991805,0.993613362,0.994273126,0.994966984,0.995690346,0.996439159,0.997208595,0.997994304,0.998791635,0.999596059,1.00040412,1.00120986,1.00200975,1.00279927,1.00357354,1.00432825,1.00505853,1.00575984,1.00642765,1.00705767,1.00764513,1.00818551,1.00867426,1.00910687,1.00947917,1.00978661,1.01002479,1.01018953,1.01027668,1.01028204,1.01020169,1.01003206,1.0097692,1.00940943,1.00894928,1.00838637,1.00771785,1.00694036,1.00605118,1.00504875,1.00393188,1.00269771,1.00134432,0.999872088,0.998280466,0.996566594,0.994731724,0.992778003,0.990701377,0.988504171,0.986186922,0.983712018,0.980584621,0.977634192,0.974455059,0.971062899,0.967447281,0.9635939,0.959491372,0.955129743,0.950501323,0.945592821,0.940389872,0.934886754,0.929080546,0.922959268,0.916509569,0.909724474,0.902607322,0.895155072,0.887356162,0.879202664,0.870699704,0.861847401,0.852641761,0.843077838,0.833154917,0.822881281,0.812257588,0.801285446,0.789971709,0.778318167,0.766337693,0.754030347,0.74140799,0.728477478,0.715255737,0.701751769,0.687975645,0.673936903,0.659652591,0.645139515,0.630414724,0.615483642,0.600365877,0.585078835,0.569649518,0.554084837,0.538398504,0.522614717,0.506756783,0.490833759,0.474866033,0.45887658,0.442885816,0.426906526,0.410970986,0.395091027,0.379291326,0.363587409,0.348004341,0.332563192,0.317287475,0.302196711,0.287309408,0.272643983,0.258227438,0.244072855,0.230208978,0.216641411,0.203398481,0.190486163,0.177922115,0.165726677,0.15390639,0.142480552,0.131453976,0.120841779,0.110652193,0.100891732,0.0915718824,0.0826995969,0.0742815509,0.0663242415,0.0588334501,0.0518140681,0.0452698357,0.039203085,0.0336144157,0.0285023302,0.0238629114,0.0196894221,0.0159720518,0.0126976222,0.00984937698,0.00740724476,0.00535665359,0.0038322655,};
static const float win_2_3[]={0.00184833037,0.00256481837,0.00336762122,0.00428736629,0.00533830142,0.00652679242,0.00786112621,0.00934628211,0.010991687,0.0128011173,0.0147805912,0.0169307049,0.0192592312,0.0217696931,0.0244685989,0.0273556542,0.0304319225,0.0336980447,0.0371583588,0.040814817,0.0446708053,0.0487262979,0.0529820621,0.0574382469,0.0620968565,0.0669609755,0.0720298365,0.0773039162,0.0827825591,0.0884682089,0.0943607539,0.100460269,0.106763825,0.11327368,0.119986422,0.126903519,0.13402085,0.141339555,0.148857206,0.156573683,0.16448462,0.172589079,0.180879086,0.189354315,0.198012248,0.206854135,0.215875313,0.225068673,0.234427407,0.243948311,0.253627986,0.263464063,0.273450494,0.283582181,0.293853462,0.304257363,0.314790905,0.325449109,0.336227417,0.347118765,0.358120173,0.369224668,0.380427808,0.391720027,0.403097034,0.414551944,0.426081717,0.437676311,0.449330211,0.461034864,0.472786039,0.484576792,0.496401697,0.508252442,0.520122051,0.532002091,0.543888092,0.555771589,0.567645729,0.579502761,0.591335058,0.603138387,0.614904165,0.626623929,0.638288856,0.649893403,0.661432385,0.672902524,0.684293747,0.69560045,0.706811786,0.717923403,0.728931367,0.739832759,0.750618994,0.761284053,0.771818936,0.782221019,0.792481303,0.80259943,0.812565207,0.822377145,0.832030535,0.84152323,0.850848317,0.860002398,0.868979871,0.877778351,0.886395931,0.894829392,0.903077602,0.911132634,0.918993592,0.926652908,0.934111416,0.941364348,0.948412955,0.955255628,0.961892009,0.968316376,0.97453016,0.980528355,0.986313939,0.99188602,0.997246325,1.00239193,1.00731945,1.01202703,1.01651657,1.02079427,1.02486086,1.02871466,1.03235173,1.03577375,1.0389843,1.0419879,1.04478562,1.04737818,1.04976737,1.05195403,1.05394292,1.05573463,1.05734181,1.05875731,1.05998671,1.06103671,1.06190646,1.06260371,1.06313288,1.06350231,1.06370986,1.06376326,1.06366765,1.06343007,1.06305659,1.06255424,1.06192231,1.061167,1.06029475,1.05931473,1.05823469,1.05705893,1.05578947,1.05442977,1.05298793,1.05147505,1.04989934,1.04826212,1.04656696,1.04481697,1.0430212,1.04118764,1.03932345,1.03743172,1.03551757,1.03358507,1.03164375,1.02969956,1.02775943,1.02582717,1.0239079,1.02200806,1.0201391,1.0182631,1.01687896,1.0149219,1.01309657,1.01134205,1.00965917,1.00805032,1.00651753,1.00505793,1.00366962,1.00235331,1.00110984,0.999937534,0.99883455,0.997800589,0.996835768,0.995938897,0.995108485,0.9943434,0.993642926,0.993005812,0.992430985,0.991917491,0.9914639,0.991068184,0.990729213,0.99044621,0.990217805,0.990041971,0.989917099,0.989841998,0.989815056,0.989834309,0.989898205,0.990005374,0.990154207,0.990342438,0.990568459,0.990830958,0.991128027,0.991457582,0.991817892,0.992207587,0.99262476,0.993067384,0.993533373,0.994021416,0.994529665,0.995055974,0.995598376,0.99615556,0.996725619,0.997306108,0.997895241,0.998491466,0.999092877,0.999697089,1.00030303,1.0009079,1.00151086,1.00210929,1.00270116,1.00328517,1.00385928,1.00442111,1.00496864,1.00550044,1.00601459,1.00650871,1.00698102,1.00743008,1.00785363,1.00824964,1.00861609,1.00895143,1.00925386,1.00952137,1.0097518,1.00994372,1.01009548,1.01020491,1.01027012,1.01028979,1.01026225,1.0101856,1.01005816,1.00987887,1.00964594,1.00935757,1.00901222,1.00860953,1.00814831,1.00762677,1.00704348,1.00639772,1.00568879,1.0049156,1.00407767,1.0031743,1.0022043,1.00116682,1.00006247,0.998891413,0.997652233,0.996343851,0.994967461,0.993524671,0.992013931,0.990433276,0.988785148,0.987072706,0.985297441,0.983401179,0.980949402,0.978782713,0.976468265,0.974042833,0.971498847,0.968829989,0.966030955,0.963095129,0.960018218,0.956795752,0.953426242,0.949903488,0.946222126,0.942375839,0.938361704,0.934177816,0.929823101,0.925292313,0.920580149,0.915679812,0.910590589,0.905315042,0.899852753,0.894199491,0.888350129,0.882301629,0.876054883,0.869612396,0.862972796,0.85613519,0.849098206,0.841857016,0.834414065,0.826774597,0.818939269,0.81090492,0.802675307,0.794253767,0.78564167,0.776838601,0.7678532,0.758685172,0.74933064,0.739809155,0.73010993,0.720247805,0.710224152,0.700044334,0.689711869,0.679231167,0.668608189,0.657850981,0.646965742,0.635959625,0.624840319,0.613603532,0.60226512,0.590829074,0.579309404,0.567711115,0.556037426,0.544293642,0.532489777,0.520636082,0.508743286,0.496811152,0.48484987,0.472868115,0.460875928,0.44888109,0.436891049,0.424912035,0.412960589,0.401035905,0.389157861,0.377322197,0.365543753,0.353832364,0.342196107,0.330644816,0.319187552,0.307833314,0.296588182,0.285463721,0.274462402,0.263609588,0.252883106,0.242323488,0.231925741,0.221690834,0.211638063,0.201766923,0.192082241,0.182589158,0.173306003,0.164229199,0.155362651,0.146717086,0.138299391,0.130105078,0.12214531,0.114423461,0.106941074,0.0997025892,0.0927124247,0.0859737396,0.079489328,0.0732616559,0.067293413,0.0615874082,0.0561458021,0.0509700738,0.0460617058,0.0414220132,0.0370514207,0.0329494663,0.0291153323,0.0255476404,0.0222437717,0.0192000661,0.0164122209,0.0138747608,0.0115806349,0.0095221363,0.00769137358,0.00607207837,0.00462581217,0.00360685168,};
static const float win_2_4[]={0.00172152673,0.00220824871,0.00268901745,0.00322613353,0.00381014426,0.00445371913,0.00515369233,0.0059155249,0.00673869159,0.00762861827,0.0085836146,0.00960938446,0.0107060755,0.0118759722,0.013119013,0.014439011,0.0158335306,0.0173063073,0.0188584719,0.0204918645,0.0222061481,0.0240057167,0.0258883592,0.0278552324,0.0299059153,0.0320415907,0.0342610031,0.0365680978,0.0389616713,0.0414435826,0.0440140814,0.046674218,0.0494214632,0.0522588491,0.0551849343,0.0582005158,0.0613059849,0.0645038411,0.0677913949,0.0711707845,0.0746411085,0.0782028064,0.0818549544,0.0856000185,0.0894357637,0.0933642611,0.0973846689,0.101496719,0.105698757,0.109993599,0.114378288,0.118853509,0.123419277,0.128076002,0.132820576,0.137655452,0.142578647,0.147590518,0.15269044,0.157878846,0.163152531,0.168513358,0.173957974,0.17948474,0.185093105,0.190784842,0.196556494,0.202410415,0.208345428,0.21435982,0.220450372,0.226617292,0.232856274,0.239167944,0.245550647,0.252003938,0.258526176,0.26511842,0.271775901,0.27849853,0.285284609,0.292132467,0.29903844,0.306004256,0.313026518,0.320104867,0.327237338,0.334423214,0.341658622,0.348944962,0.356279254,0.363660038,0.371085137,0.378554314,0.386062682,0.393610567,0.401195228,0.408815265,0.416468471,0.424155414,0.431871057,0.439614743,0.44738403,0.455176979,0.462990135,0.470824629,0.478676587,0.486545444,0.494428724,0.50232482,0.510229468,0.518142939,0.526060939,0.533982813,0.541906834,0.549831271,0.557751238,0.565667629,0.573576868,0.581476688,0.589364648,0.597241342,0.605102003,0.612946153,0.620770216,0.628572106,0.636348546,0.644099653,0.651820958,0.659513831,0.667176366,0.674806774,0.682400703,0.68995887,0.697475731,0.704950154,0.712379992,0.719765425,0.727103829,0.734396398,0.741638541,0.748829663,0.755966663,0.763049245,0.770072281,0.777036965,0.78394109,0.79078126,0.797558129,0.8042714,0.810914874,0.817490876,0.82399708,0.830432773,0.836796939,0.843089283,0.849305868,0.855447292,0.861511052,0.867496252,0.873400807,0.879227519,0.884972453,0.890635729,0.896217167,0.901716411,0.907128751,0.912456572,0.917697251,0.922848761,0.927909911,0.932882607,0.937763333,0.942553341,0.947252452,0.951860189,0.956376076,0.960800588,0.965130627,0.96936667,0.973508835,0.977556527,0.981507242,0.985364556,0.989126205,0.992794216,0.996367574,0.999846935,1.00322807,1.00651336,1.00970078,1.01279032,1.01578295,1.01868224,1.02148652,1.0241977,1.02681458,1.02933598,1.03176045,1.0340898,1.03632331,1.03846359,1.04051197,1.04246831,1.04433334,1.04610837,1.04779017,1.04938328,1.05088568,1.05229926,1.05362523,1.05486286,1.05601525,1.05708742,1.05807221,1.05897522,1.05979443,1.06053412,1.06119406,1.06177366,1.0622766,1.06270325,1.06305563,1.06333816,1.06354797,1.06368601,1.06375551,1.06375742,1.06369352,1.06356633,1.06337702,1.06312788,1.06282151,1.0624578,1.0620364,1.06155992,1.06102955,1.06044793,1.05981708,1.05914164,1.05842137,1.05765879,1.05685377,1.05600762,1.05512011,1.05419505,1.0532335,1.05223989,1.05121672,1.05016637,1.04908776,1.04798365,1.0468533,1.04569864,1.04452062,1.04332352,1.0421083,1.04087901,1.03963602,1.03838098,1.03711402,1.03583813,1.03455281,1.03326201,1.03196752,1.03067195,1.02937567,1.02808249,1.02679169,1.02550638,1.02422655,1.02295554,1.02169299,1.02044475,1.01920736,1.01799989,1.01716018,1.01587284,1.0146178,1.01339734,1.01221013,1.01105654,1.00993443,1.00884557,1.00778961,1.00676787,1.00577855,1.00482178,1.00389588,1.00300264,1.00214088,1.00131214,1.00051463,0.999749005,0.999013484,0.998309255,0.997634947,0.996991873,0.996378601,0.995795965,0.995242238,0.994718134,0.994222105,0.993755341,0.993316233,0.992905796,0.992522418,0.992166936,0.99183768,0.991535485,0.991258621,0.991007864,0.990781724,0.990581095,0.990404308,0.990252256,0.990123093,0.990017712,0.989934325,0.989873707,0.98983413,0.989816368,0.989818692,0.989841998,0.989884436,0.989946783,0.990027308,0.990126669,0.990243196,0.990377605,0.990528107,0.990695536,0.990878046,0.991076291,0.991288543,0.991515577,0.991755664,0.992009461,0.992275178,0.992553473,0.992842674,0.993143559,0.993454099,0.99377507,0.994104683,0.994443715,0.994790375,0.99514538,0.995506823,0.995875537,0.996249676,0.996629894,0.997014344,0.9974038,0.997796416,0.998192847,0.998591304,0.998992443,0.999394476,0.999798238,1.00020182,1.00060582,1.00100863,1.00141072,1.00181043,1.00220847,1.00260293,1.00299454,1.00338149,1.00376439,1.00414157,1.0045135,1.00487828,1.00523686,1.00558734,1.0059303,1.00626397,1.00658906,1.00690377,1.00720894,1.00750244,1.00778496,1.00805485,1.00831282,1.00855696,1.00878799,1.009004,1.00920594,1.00939178,1.00956249,1.00971591,1.00985301,1.00997174,1.01007318,1.01015532,1.01021898,1.01026225,1.01028597,1.01028848,1.01027036,1.01022983,1.01016808,1.01008296,1.00997543,1.00984371,1.00968862,1.00950849,1.00930405,1.00907373,1.00881851,1.0085367,1.00822949,1.00789487,1.00753391,1.00714493,1.00672877,1.00628388,1.00581145,1.00530994,1.00478053,1.0042218,1.00363457,1.00301719,1.00237072,1.00169361,1.00098753,1.00025105,0.999485672,0.998689592,0.99786365,0.997006357,0.996119201,0.995201409,0.994254708,0.993277609,0.992270648,0.991231978,0.990163267,0.989064395,0.987937093,0.986779749,0.985592782,0.984375119,0.983129263,0.981348455,0.979890943,0.978400469,0.976860464,0.975269854,0.973627329,0.971931338,0.970180511,0.968372643,0.966506958,0.964579999,0.962592304,0.96054101,0.958425522,0.956244409,0.953998387,0.951683998,0.949301183,0.946846902,0.944320261,0.9417184,0.939042568,0.936290622,0.93346405,0.930560827,0.927580535,0.924519598,0.921378493,0.918153405,0.914844692,0.911451638,0.907976508,0.904417574,0.900776327,0.897050083,0.893238425,0.889338672,0.88535136,0.881274045,0.877109647,0.872857928,0.868519485,0.864092767,0.859579802,0.854975998,0.850285232,0.845502615,0.840630472,0.835667908,0.830619931,0.825482011,0.820258915,0.814946651,0.809546709,0.804059982,0.798489392,0.792831421,0.787090659,0.781262457,0.775353968,0.769363642,0.763291776,0.757139027,0.750901699,0.744590819,0.738205135,0.731738091,0.725199282,0.718588233,0.711905658,0.705153644,0.698332608,0.691444099,0.684490561,0.677470148,0.670388401,0.663245201,0.656045794,0.648788631,0.641477168,0.634114325,0.626702011,0.619235337,0.611720622,0.60416162,0.596559107,0.588914394,0.581234813,0.573520005,0.565770626,0.557988048,0.550173879,0.542330205,0.534460783,0.526568532,0.518656313,0.510728836,0.502781153,0.494819492,0.486845136,0.478860885,0.470869929,0.462875158,0.454877883,0.446882516,0.438889325,0.43089813,0.42291832,0.414950877,0.406993955,0.39905265,0.39113462,0.383234024,0.375354648,0.367502064,0.359680086,0.351887316,0.344130158,0.336408108,0.328728974,0.321090519,0.313496411,0.305951566,0.298454314,0.291010559,0.283621103,0.27628541,0.269019574,0.261812449,0.254659235,0.247584343,0.240578696,0.233647004,0.226788431,0.220001996,0.213301331,0.206677765,0.200140402,0.193683624,0.187310338,0.181027383,0.174839482,0.168739647,0.16273728,0.156825274,0.151012376,0.145298228,0.139687464,0.134171844,0.128762543,0.123455562,0.118254662,0.113159679,0.108171441,0.103290737,0.0985203013,0.0938600004,0.0893117338,0.0848752111,0.0805523768,0.0763429776,0.0722489282,0.0682699084,0.0644077286,0.0606620014,0.0570343696,0.0535243712,0.0501334704,0.0468610786,0.0437084436,0.0406748354,0.0377612263,0.034966711,0.0322919264,0.0297357664,0.0272984635,0.0249787178,0.0227762535,0.0206895806,0.0187178161,0.0168593414,0.0151125127,0.0134757096,0.0119462712,0.010522875,0.00920130964,0.00798124354,0.00685547292,0.00582657335,0.00487838546,0.00402351096,0.00315418653,};
static const float win_3_0[]={-0.000707854691,-0.00209819782,-0.00452519814,-0.00823397655,-0.013377131,-0.0199972149,-0.0280090943,-0.0372150205,-0.0473176837,-0.0579465479,-0.0686760694,-0.0790464729,-0.0885970518,-0.0968830362,-0.103496127,-0.108076647,-0.110324226,-0.109980986,-0.106817216,-0.10061904,-0.0911645219,-0.0782061741,-0.0614668801,-0.04063363,-0.0153632956,0.0147015508,0.0498973653,0.0905036926,0.136691108,0.188468635,0.245645687,0.307778895,0.374164224,0.443811476,0.515473545,0.587666154,0.658761978,0.727057695,0.790875316,0.848664343,0.899132013,0.941334844,0.974763513,0.999411464,1.01576042,1.02473617,1.02763426,1.02599144,1.02142715,1.01543987,1.00936699,1.00350821,0.998889804,0.995313406,0.992594421,0.990577221,0.989137173,0.988179088,0.987624943,0.987405658,0.987452507,0.987695098,0.988064051,0.988492668,0.988923013,0.989307523,0.989614606,0.989831924,0.989969313,0.990060329,0.990157485,0.990325511,0.990630388,0.991129875,0.991866529,0.992861986,0.994115591,0.995603383,0.997279286,0.999078512,1.00092232,1.0027281,1.00441599,1.00591922,1.00718939,1.00820017,1.00894952,1.00945818,1.00976896,1.00994039,1.01003945,1.01013231,1.0102725,1.01049435,1.01080811,1.01120102,1.01164126,1.01208007,1.01245821,1.012707,1.01275504,1.01253009,1.01196229,1.01098216,1.00951242,1.00746083,1.00470865,1.00111139,0.996504128,0.990719974,0.982376575,0.970882177,0.95467329,0.932155371,0.901800394,0.862398386,0.813281715,0.754455209,0.686658084,0.611348808,0.530618191,0.447130978,0.36391148,0.284164697,0.211020947,0.147228792,0.0948266536,0.0548243672,0.027014615,0.00999674387,};
static const float win_3_1[]={-0.000461989868,-0.000974716677,-0.00166447309,-0.00259710685,-0.00380628509,-0.00532460865,-0.00717588514,-0.00938248076,-0.0119527029,-0.0148952818,-0.0182066634,-0.0218757093,-0.0258847196,-0.0302086268,-0.0348159783,-0.0396706797,-0.044726979,-0.0499422587,-0.0552633479,-0.0606371723,-0.0660096183,-0.071319662,-0.0765117854,-0.0815296397,-0.0863113776,-0.0908041149,-0.0949537754,-0.098707363,-0.102020271,-0.104843885,-0.107138231,-0.108869016,-0.109996967,-0.110489845,-0.110322587,-0.109462172,-0.107883431,-0.105561249,-0.102465019,-0.0985701457,-0.0938468501,-0.0882631019,-0.0817879289,-0.0743878558,-0.0660218969,-0.0566565581,-0.0462445691,-0.0347458571,-0.0221158154,-0.00831042603,0.00671769772,0.0230064206,0.0406010635,0.059532389,0.0798335448,0.101523317,0.124617137,0.14911525,0.175006747,0.202269986,0.230865538,0.260736525,0.291814476,0.324009567,0.35721752,0.391314685,0.426157176,0.461592555,0.497447163,0.533532679,0.569654644,0.605608404,0.641183078,0.676165342,0.710340083,0.743494391,0.775428176,0.805943727,0.834858954,0.862010837,0.88725996,0.910486341,0.931596279,0.950522065,0.967236698,0.981739759,0.994055688,1.00424755,1.01240742,1.01865101,1.02311885,1.02597249,1.02739751,1.02758586,1.02673864,1.02506173,1.02275646,1.02000916,1.0169965,1.0139159,1.01104486,1.00777388,1.00484872,1.00224507,0.999939322,0.997905552,0.996120334,0.994559765,0.993203163,0.992029727,0.991023064,0.990166903,0.989448845,0.98885566,0.988377869,0.988005161,0.987729549,0.987541258,0.987432957,0.987394989,0.987419724,0.98749733,0.987620115,0.987778187,0.987963796,0.988167822,0.988383532,0.988602221,0.988818288,0.989024818,0.989217877,0.98939234,0.989546359,0.989677191,0.98978591,0.989872515,0.989941061,0.989994586,0.990039408,0.990081489,0.990129352,0.990190208,0.990273416,0.990386248,0.990538001,0.990734875,0.990984261,0.99129051,0.991658688,0.992090642,0.992588699,0.993151665,0.993779063,0.994466841,0.995211661,0.996006846,0.996846139,0.997720361,0.998621345,0.999538243,1.00046194,1.00138056,1.00228488,1.00316381,1.00400913,1.00481141,1.00556397,1.00625992,1.00689554,1.00746667,1.00797248,1.00841153,1.00878596,1.00909781,1.00935173,1.00955236,1.00970709,1.00982213,1.00990701,1.009969,1.01001787,1.01006079,1.01010656,1.01016116,1.01023114,1.01031947,1.01043046,1.01056409,1.01072133,1.01089966,1.01109695,1.01130819,1.01152921,1.01175296,1.01197386,1.01218283,1.01237297,1.0125351,1.01266098,1.01274061,1.01276588,1.0127269,1.01261592,1.01242292,1.01214051,1.0117588,1.01126993,1.01066363,1.00993073,1.00905824,1.00803435,1.00684333,1.00547004,1.00389481,1.0020988,1.00006068,0.997759998,0.995174646,0.992286086,0.98907578,0.984736264,0.979861379,0.974137843,0.967333198,0.959253967,0.949698389,0.93846339,0.925356805,0.910198689,0.892833829,0.873143792,0.851042032,0.826483965,0.79946816,0.770043135,0.738302886,0.704381406,0.668461621,0.630775511,0.591579974,0.55117029,0.50989157,0.46810171,0.426177293,0.384517223,0.343522877,0.30360046,0.265143454,0.228528395,0.194102198,0.162173539,0.133001521,0.106784046,0.0836505741,0.0636518821,0.0467653833,0.0328807272,0.0218305755,0.013363814,0.00675812503,};
static const float win_3_2[]={-0.000361349637,-0.000707854691,-0.00107444369,-0.0015334785,-0.00209819782,-0.00277842092,-0.00358412997,-0.00452519814,-0.00560932746,-0.00684323441,-0.00823397655,-0.00978531502,-0.0114988033,-0.013377131,-0.0154218171,-0.0176297985,-0.0199972149,-0.0225208048,-0.0251940638,-0.0280090943,-0.0309576504,-0.0340299644,-0.0372150205,-0.0405005328,-0.0438721925,-0.0473176837,-0.0508232526,-0.0543716662,-0.0579465479,-0.0615342632,-0.0651170835,-0.0686760694,-0.0721944794,-0.0756569579,-0.0790464729,-0.0823444277,-0.0855332464,-0.0885970518,-0.0915209129,-0.0942884758,-0.0968830362,-0.0992912352,-0.101500846,-0.103496127,-0.105263703,-0.106794,-0.108076647,-0.109099731,-0.109852448,-0.110324226,-0.110508464,-0.110397741,-0.109980986,-0.109249279,-0.108197421,-0.106817216,-0.105099581,-0.103036009,-0.10061904,-0.0978412032,-0.0946930423,-0.0911645219,-0.0872464478,-0.0829304382,-0.0782061741,-0.0730614215,-0.0674846843,-0.0614668801,-0.0549949743,-0.0480544455,-0.04063363,-0.0327204578,-0.0243012253,-0.0153632956,-0.00589143438,0.0041265958,0.0147015508,0.025847381,0.0375765264,0.0498973653,0.0628203377,0.0763539746,0.0905036926,0.105274715,0.120670348,0.136691108,0.153334394,0.170595467,0.188468635,0.206945002,0.226009294,0.245645687,0.2658346,0.286554366,0.307778895,0.329476953,0.351617157,0.374164224,0.397073954,0.420304298,0.443811476,0.467544228,0.491449863,0.515473545,0.539555788,0.563639998,0.587666154,0.611569524,0.635289073,0.658761978,0.681923091,0.704709291,0.727057695,0.74890691,0.770199001,0.790875316,0.810878873,0.830157936,0.848664343,0.866354823,0.883189678,0.899132013,0.914154053,0.928228259,0.941334844,0.953461945,0.964604855,0.974763513,0.983943522,0.992152929,0.999411464,1.00574613,1.01118398,1.01576042,1.01951504,1.02249098,1.02473617,1.02630413,1.02725101,1.02763426,1.027511,1.02694285,1.02599144,1.02471614,1.02317595,1.02142715,1.01952159,1.01751018,1.01543987,1.01346087,1.01165485,1.00936699,1.00726318,1.00531316,1.00350821,1.00184083,1.00030398,0.998889804,0.997591555,0.996401548,0.995313406,0.994320095,0.993415892,0.992594421,0.991851032,0.991179824,0.990577221,0.990038097,0.989559412,0.989137173,0.988768458,0.988449812,0.988179088,0.987952828,0.987769127,0.987624943,0.987518013,0.987445831,0.987405658,0.987395108,0.987411559,0.987452507,0.987514973,0.987596869,0.987695098,0.987807572,0.987931192,0.988064051,0.988203228,0.988347113,0.988492668,0.988638639,0.988782585,0.988923013,0.989058197,0.989186764,0.989307523,0.989419639,0.989522099,0.989614606,0.989697039,0.98976928,0.989831924,0.989885271,0.989930749,0.989969313,0.990002573,0.990032136,0.990060329,0.990088999,0.990120649,0.990157485,0.990202367,0.990257561,0.990325511,0.990408778,0.990509629,0.990630388,0.990772724,0.990938723,0.991129875,0.991347611,0.991592884,0.991866529,0.992169142,0.99250108,0.992861986,0.99325192,0.993670046,0.994115591,0.994587302,0.995083749,0.995603383,0.996143997,0.996703446,0.997279286,0.997869074,0.99846971,0.999078512,0.999691904,1.00030816,1.00092232,1.00153267,1.00213552,1.0027281,1.00330746,1.00387096,1.00441599,1.00494051,1.00544214,1.00591922,1.00637031,1.00679398,1.00718939,1.0075556,1.00789273,1.00820017,1.0084784,1.00872791,1.00894952,1.00914407,1.00931323,1.00945818,1.00958133,1.00968409,1.00976896,1.00983834,1.00989461,1.00994039,1.00997794,1.01001024,1.01003945,1.01006818,1.01009834,1.01013231,1.01017165,1.01021814,1.0102725,1.01033652,1.01041019,1.01049435,1.01058888,1.01069355,1.01080811,1.01093149,1.01106286,1.01120102,1.01134467,1.01149189,1.01164126,1.01179028,1.01193762,1.01208007,1.01221621,1.01234293,1.01245821,1.01255894,1.01264286,1.012707,1.01274896,1.01276577,1.01275504,1.01271379,1.01263976,1.01253009,1.01238227,1.01219404,1.01196229,1.01168513,1.0113591,1.01098216,1.01055074,1.0100621,1.00951242,1.00889874,1.0082159,1.00746083,1.0066278,1.00571239,1.00470865,1.00361145,1.00241435,1.00111139,0.999696136,0.998162568,0.996504128,0.994714916,0.992789209,0.990719974,0.988479376,0.985534787,0.982376575,0.97897476,0.975162387,0.970882177,0.966080546,0.960697651,0.95467329,0.947947919,0.94046092,0.932155371,0.922977567,0.91287452,0.901800394,0.889716327,0.876590908,0.862398386,0.847120106,0.830747962,0.813281715,0.794729173,0.7751109,0.754455209,0.732796371,0.71017909,0.686658084,0.662296236,0.637168407,0.611348808,0.584920645,0.557974756,0.530618191,0.502952397,0.475086898,0.447130978,0.41920498,0.391425282,0.36391148,0.336783767,0.310162783,0.284164697,0.258903384,0.234488055,0.211020947,0.188599765,0.167310074,0.147228792,0.128422305,0.110942252,0.0948266536,0.0800991431,0.0667676553,0.0548243672,0.0442458875,0.0349936113,0.027014615,0.0202437025,0.0146079678,0.00999674387,0.00530523527,};
static const float win_3_3[]={-0.000302115339,-0.000586773735,-0.000836650375,-0.00112663535,-0.00147049292,-0.0018734734,-0.00233929232,-0.00287200813,-0.0034762565,-0.00415596366,-0.00491456361,-0.00575517258,-0.00668062316,-0.00769381691,-0.00879676081,-0.00999050308,-0.0112757413,-0.0126533415,-0.0141243897,-0.0156888962,-0.0173451211,-0.0190909728,-0.0209254678,-0.0228468478,-0.0248520765,-0.0269374661,-0.029099524,-0.0313350447,-0.0336396061,-0.036008209,-0.0384360179,-0.0409174599,-0.0434465483,-0.0460178666,-0.0486259833,-0.0512647405,-0.0539264493,-0.0566038415,-0.059291169,-0.0619826838,-0.0646702573,-0.0673454255,-0.0700009912,-0.0726305693,-0.0752278492,-0.077785261,-0.0802948028,-0.0827492476,-0.0851412565,-0.0874637887,-0.0897106901,-0.0918756425,-0.0939517692,-0.095931381,-0.0978084356,-0.0995785147,-0.10123612,-0.102774106,-0.104186125,-0.105468027,-0.106616087,-0.107625537,-0.108491227,-0.10920874,-0.109773614,-0.110180885,-0.110427186,-0.110510834,-0.110428147,-0.110173918,-0.109743737,-0.109135315,-0.10834673,-0.107373998,-0.106213018,-0.104860619,-0.103313237,-0.101567313,-0.0996200517,-0.0974680334,-0.095107235,-0.0925330371,-0.0897412524,-0.086728774,-0.0834921375,-0.0800263956,-0.0763267949,-0.0723880604,-0.0682057664,-0.0637761131,-0.059093859,-0.054153163,-0.0489481278,-0.043473471,-0.0377246141,-0.0316958763,-0.0253817979,-0.0187768918,-0.0118746134,-0.00466909911,0.00284409686,0.0106697613,0.0188135598,0.02728156,0.0360781029,0.0452070273,0.0546723865,0.0644786581,0.0746286213,0.0851249024,0.0959698409,0.107165076,0.118711583,0.130610108,0.142859638,0.15545848,0.168404162,0.181694791,0.195327386,0.209296316,0.223594561,0.238216028,0.253152966,0.268396169,0.283936143,0.299762428,0.315861911,0.332221061,0.348826468,0.365664035,0.382715285,0.399961174,0.417384326,0.434966952,0.452687651,0.470524192,0.488453925,0.506454527,0.524500668,0.542567432,0.560631216,0.578667283,0.59664768,0.614545882,0.632336199,0.649992645,0.667487383,0.684793293,0.701883554,0.718732238,0.735312819,0.751600206,0.7675699,0.783197463,0.798458397,0.813329518,0.827789247,0.841817856,0.855396152,0.868506908,0.881133437,0.893259704,0.904874861,0.915965736,0.92652154,0.936533988,0.945997715,0.954908848,0.963265836,0.971068919,0.97832042,0.985022664,0.991179228,0.996798992,1.001894,1.00647438,1.01055205,1.01414251,1.01726258,1.01992881,1.02215981,1.02397633,1.02540076,1.02645528,1.02716446,1.02755272,1.02764452,1.0274632,1.02703595,1.02638912,1.02554822,1.02453709,1.02338076,1.02210367,1.02072835,1.01927531,1.01776516,1.01621735,1.01466537,1.01324904,1.01194799,1.01018906,1.00855792,1.00701129,1.00554872,1.00416839,1.00286722,1.00164175,1.00048912,0.999406099,0.9983899,0.99743706,0.99654448,0.995709836,0.994930267,0.994202375,0.993524134,0.99289304,0.992306828,0.991763353,0.991259754,0.990795434,0.99036777,0.989975154,0.989616036,0.989289045,0.98899287,0.98872602,0.988486886,0.988275111,0.988089204,0.987927735,0.98778981,0.987674356,0.987580776,0.987507224,0.987452924,0.987416983,0.987398446,0.987395823,0.987407982,0.987434328,0.987473607,0.987524331,0.987585604,0.987656355,0.987735868,0.987822533,0.987915099,0.988013268,0.988115668,0.988221109,0.988328874,0.988437831,0.988547683,0.988656819,0.988764584,0.988870859,0.988974452,0.989074707,0.989171028,0.989263117,0.989350736,0.98943305,0.989509702,0.989581108,0.989646733,0.989706755,0.989760697,0.989809453,0.989853024,0.989891469,0.989925444,0.989955425,0.989982426,0.990006506,0.990028501,0.99004972,0.990070939,0.990092814,0.990116417,0.990142763,0.990173399,0.990208745,0.990249872,0.99029839,0.990354836,0.99042052,0.99049592,0.990582526,0.990681231,0.990792215,0.99091655,0.991055071,0.991208434,0.991376877,0.991560578,0.991760433,0.991976738,0.992209136,0.992457926,0.992723107,0.993004978,0.993302703,0.993616104,0.99394536,0.994289517,0.994648159,0.99502033,0.995405793,0.995803893,0.996213019,0.996632457,0.997061551,0.997499049,0.997943759,0.998394072,0.998849332,0.999308348,0.999768913,1.00023115,1.00069213,1.00115204,1.00160849,1.00206053,1.00250721,1.00294709,1.00337887,1.00380135,1.00421381,1.00461543,1.00500464,1.00538063,1.00574327,1.00609148,1.0064249,1.00674248,1.00704432,1.00733018,1.00759935,1.00785208,1.00808823,1.00830805,1.0085113,1.00869811,1.00886953,1.00902569,1.00916672,1.00929332,1.00940645,1.00950706,1.00959527,1.00967216,1.00973904,1.00979674,1.00984609,1.00988805,1.00992405,1.00995541,1.00998223,1.01000631,1.0100286,1.0100503,1.01007199,1.0100944,1.01011896,1.0101465,1.01017714,1.01021171,1.01025105,1.01029551,1.01034522,1.0104003,1.01046157,1.01052856,1.01060152,1.01067984,1.01076388,1.01085341,1.01094759,1.01104593,1.01114845,1.01125443,1.01136303,1.0114733,1.011585,1.01169741,1.01180887,1.01191926,1.01202726,1.01213217,1.01223278,1.01232755,1.01241636,1.0124979,1.01257038,1.01263332,1.0126853,1.01272559,1.01275253,1.01276505,1.01276231,1.01274335,1.01270652,1.01265085,1.01257539,1.01247942,1.01236117,1.01221979,1.01205432,1.01186395,1.01164722,1.01140249,1.01112962,1.01082695,1.01049292,1.01012635,1.00972593,1.0092901,1.00881732,1.00830507,1.00775278,1.0071578,1.00651801,1.00583136,1.0050956,1.00430858,1.00346744,1.00256956,1.00161266,1.00059426,0.999511182,0.998360932,0.997140944,0.995848894,0.994481862,0.993037522,0.991514683,0.989913702,0.988193035,0.985942245,0.983566761,0.981142282,0.978521466,0.975663602,0.972545326,0.969145656,0.965440631,0.961404383,0.957011282,0.952236772,0.947054863,0.941440403,0.935369134,0.928819001,0.921766281,0.914189637,0.906069458,0.897389174,0.888133228,0.878289402,0.867846966,0.85679704,0.845133483,0.832854271,0.819959462,0.806451082,0.792334676,0.777620435,0.762320638,0.746448636,0.730020583,0.713056743,0.695580542,0.677617311,0.659195542,0.640348613,0.621107221,0.601504922,0.581578732,0.561367452,0.540918887,0.520273685,0.499478072,0.478577405,0.457617253,0.436649024,0.415722132,0.394885659,0.374190331,0.353686899,0.333425999,0.313458651,0.293833792,0.274599254,0.255803078,0.237490222,0.2197036,0.202485546,0.185874999,0.16990678,0.154613227,0.140023828,0.126163736,0.113053441,0.1007085,0.0891402438,0.0783561245,0.0683582127,0.0591421165,0.0506989285,0.0430171788,0.0360802077,0.0298631638,0.0243372265,0.0194767527,0.0152571015,0.0116378749,0.00843308773,0.00444966881,};
static const float win_3_4[]={-0.000235303218,-0.000461989868,-0.000626293127,-0.000792918028,-0.000974716677,-0.00118025683,-0.00140920898,-0.00166447309,-0.00194659166,-0.00225708168,-0.00259710685,-0.0029676077,-0.00337045477,-0.00380628509,-0.00427687354,-0.00478246994,-0.00532460865,-0.00590340374,-0.00652041985,-0.00717588514,-0.00787142292,-0.00860658567,-0.00938248076,-0.0101982718,-0.0110552059,-0.0119527029,-0.0128920591,-0.0138726346,-0.0148952818,-0.0159585662,-0.0170628857,-0.0182066634,-0.0193906594,-0.0206135549,-0.0218757093,-0.0231752638,-0.0245122742,-0.0258847196,-0.0272926372,-0.0287339091,-0.0302086268,-0.0317144021,-0.0332509875,-0.0348159783,-0.0364089236,-0.0380274244,-0.0396706797,-0.0413357541,-0.0430220328,-0.044726979,-0.0464502238,-0.0481889136,-0.0499422587,-0.0517069064,-0.0534816198,-0.0552633479,-0.0570512302,-0.0588427186,-0.0606371723,-0.0624310412,-0.0642230362,-0.0660096183,-0.0677896217,-0.069559969,-0.071319662,-0.0730658099,-0.0747975856,-0.0765117854,-0.0782071128,-0.0798801035,-0.0815296397,-0.0831523761,-0.0847472921,-0.0863113776,-0.0878437459,-0.0893416405,-0.0908041149,-0.0922279581,-0.0936123282,-0.0949537754,-0.0962515548,-0.0975028425,-0.098707363,-0.0998627096,-0.100968026,-0.102020271,-0.103018381,-0.103959635,-0.104843885,-0.105668686,-0.106434286,-0.107138231,-0.107779995,-0.108357064,-0.108869016,-0.109313563,-0.109690353,-0.109996967,-0.110233225,-0.110397279,-0.110489845,-0.110508643,-0.11045374,-0.110322587,-0.110114582,-0.10982769,-0.109462172,-0.109016396,-0.108490884,-0.107883431,-0.107193716,-0.106419638,-0.105561249,-0.104616284,-0.1035849,-0.102465019,-0.1012569,-0.0999586433,-0.0985701457,-0.0970891118,-0.0955154598,-0.0938468501,-0.0920829996,-0.0902217105,-0.0882631019,-0.0862049386,-0.0840474218,-0.0817879289,-0.0794262514,-0.0769598112,-0.0743878558,-0.0717079714,-0.0689199492,-0.0660218969,-0.063013494,-0.0598919205,-0.0566565581,-0.0533040613,-0.0498342738,-0.0462445691,-0.0425345562,-0.038701959,-0.0347458571,-0.0306634158,-0.0264542513,-0.0221158154,-0.0176474061,-0.0130458139,-0.00831042603,-0.00343826856,0.00157031545,0.00671769772,0.0120047703,0.0174339823,0.0230064206,0.0287248138,0.0345889628,0.0406010635,0.0467610285,0.0530713387,0.059532389,0.0661464781,0.0729129314,0.0798335448,0.0869080722,0.094138138,0.101523317,0.109065153,0.116762653,0.124617137,0.132627293,0.140793815,0.14911525,0.157592148,0.166222483,0.175006747,0.183943197,0.193031818,0.202269986,0.211656749,0.221188858,0.230865538,0.240683794,0.250642061,0.260736525,0.270965904,0.281325907,0.291814476,0.302427024,0.31316036,0.324009567,0.334971964,0.346042305,0.35721752,0.36849156,0.379859507,0.391314685,0.40285328,0.414468825,0.426157176,0.437911391,0.449725628,0.461592555,0.473506689,0.485460013,0.497447163,0.509459734,0.521490991,0.533532679,0.545578957,0.557621717,0.569654644,0.581668556,0.593656063,0.605608404,0.6175192,0.62937969,0.641183078,0.652920365,0.6645841,0.676165342,0.687657416,0.699051142,0.710340083,0.72151494,0.732569158,0.743494391,0.75428462,0.764931381,0.775428176,0.785767019,0.795941472,0.805943727,0.815768719,0.825408638,0.834858954,0.844112575,0.85316509,0.862010837,0.870645642,0.879063129,0.88725996,0.895231307,0.902975142,0.910486341,0.917762578,0.92479974,0.931596279,0.938149512,0.944458842,0.950522065,0.956340313,0.96191144,0.967236698,0.972315669,0.977150142,0.981739759,0.986086607,0.990190625,0.994055688,0.99768424,1.00108099,1.00424755,1.00718856,1.00990665,1.01240742,1.01469469,1.01677465,1.01865101,1.02033043,1.02181733,1.02311885,1.02424026,1.02518976,1.02597249,1.0265969,1.02706921,1.02739751,1.02758789,1.02764893,1.02758586,1.02740848,1.02712297,1.02673864,1.02626169,1.02570105,1.02506173,1.02435398,1.02358234,1.02275646,1.02188063,1.02096391,1.02000916,1.01902723,1.01801944,1.0169965,1.01595747,1.01492345,1.0139159,1.01304758,1.01221609,1.01104486,1.00991464,1.00882494,1.00777388,1.00676167,1.00578666,1.00484872,1.00394607,1.00307882,1.00224507,1.0014447,1.00067616,0.999939322,0.999232113,0.998554826,0.997905552,0.997284293,0.996689081,0.996120334,0.995576143,0.99505657,0.994559765,0.994086027,0.993633807,0.993203163,0.992792189,0.99240154,0.992029727,0.991676807,0.991340876,0.991023064,0.990721643,0.990436673,0.990166903,0.989913106,0.989673555,0.989448845,0.989237487,0.989040196,0.98885566,0.988684356,0.988524735,0.988377869,0.988242328,0.988118589,0.988005161,0.987903178,0.987811148,0.987729549,0.987657189,0.987594962,0.987541258,0.987496912,0.987460613,0.987432957,0.987412632,0.987400472,0.987394989,0.987396896,0.987404883,0.987419724,0.98743999,0.987466335,0.98749733,0.987533867,0.987574637,0.987620115,0.987668991,0.987722158,0.987778187,0.987837672,0.987899184,0.987963796,0.988030016,0.988098443,0.988167822,0.98823905,0.988310754,0.988383532,0.988456011,0.988529444,0.988602221,0.988674939,0.988746643,0.988818288,0.988888264,0.988957465,0.989024818,0.989091098,0.989155173,0.989217877,0.989277959,0.989336491,0.98939234,0.989446282,0.989497185,0.989546359,0.989592373,0.989636242,0.989677191,0.989716232,0.989752054,0.98978591,0.989817023,0.98984623,0.989872515,0.98989749,0.98992002,0.989941061,0.989960074,0.989978254,0.989994586,0.990010321,0.990024805,0.990039408,0.990053236,0.990067482,0.990081489,0.990096688,0.990112245,0.990129352,0.990147471,0.990168035,0.990190208,0.990215182,0.990242422,0.990273416,0.990307152,0.990344882,0.990386248,0.990432441,0.990482569,0.990538001,0.990598083,0.990664065,0.990734875,0.990812063,0.990894794,0.990984261,0.991079509,0.99118191,0.99129051,0.9914065,0.991528809,0.991658688,0.991795301,0.991939604,0.992090642,0.992249489,0.992415249,0.992588699,0.992768884,0.992956936,0.993151665,0.993353903,0.993562698,0.993779063,0.994001627,0.994231224,0.994466841,0.994709373,0.994957268,0.995211661,0.995471239,0.995736778,0.996006846,0.996282279,0.996561825,0.996846139,0.997133851,0.997425675,0.997720361,0.998018503,0.998318613,0.998621345,0.998925567,0.999231756,0.999538243,0.999846101,1.0001539,1.00046194,1.0007689,1.00107563,1.00138056,1.00168419,1.00198543,1.00228488,1.002581,1.00287437,1.00316381,1.00345004,1.00373161,1.00400913,1.0042814,1.00454938,1.00481141,1.0050683,1.00531876,1.00556397,1.00580227,1.00603449,1.00625992,1.00647902,1.0066905,1.00689554,1.00709307,1.00728381,1.00746667,1.00764275,1.00781107,1.00797248,1.0081259,1.00827265,1.00841153,1.00854361,1.00866807,1.00878596,1.00889659,1.00900078,1.00909781,1.00918889,1.00927317,1.00935173,1.00942397,1.00949121,1.00955236,1.00960886,1.00966001,1.00970709,1.00974929,1.0097878,1.00982213,1.00985372,1.0098815,1.00990701,1.00992954,1.00995052,1.009969,1.00998652,1.01000237,1.01001787,1.01003218,1.01004672,1.01006079,1.01007569,1.01009047,1.01010656,1.01012325,1.01014173,1.01016116,1.01018262,1.01020563,1.01023114,1.01025796,1.01028776,1.01031947,1.01035404,1.01039064,1.01043046,1.0104723,1.01051712,1.01056409,1.01061428,1.01066625,1.01072133,1.01077843,1.01083827,1.01089966,1.01096368,1.01102924,1.01109695,1.01116586,1.01123667,1.01130819,1.01138151,1.01145482,1.01152921,1.01160371,1.01167881,1.01175296,1.01182747,1.0119009,1.01197386,1.01204491,1.012115,1.01218283,1.01224899,1.01231205,1.01237297,1.01243043,1.01248503,1.0125351,1.01258171,1.01262343,1.01266098,1.01269281,1.01271975,1.01274061,1.01275575,1.01276398,1.01276588,1.01276028,1.01274776,1.0127269,1.01269865,1.01266146,1.01261592,1.01256084,1.01249707,1.01242292,1.01233923,1.01224494,1.01214051,1.01202428,1.01189756,1.0117588,1.01160848,1.01144516,1.01126993,1.01108122,1.01087964,1.01066363,1.01043415,1.01018965,1.00993073,1.00965571,1.0093652,1.00905824,1.0087347,1.00839305,1.00803435,1.00765669,1.00726008,1.00684333,1.00640702,1.00594914,1.00547004,1.00496805,1.00444353,1.00389481,1.00332189,1.0027231,1.0020988,1.00144732,1.00076854,1.00006068,0.999324262,0.998557329,0.997759998,0.996930599,0.996069431,0.995174646,0.994246662,0.993283689,0.992286086,0.991252303,0.990182757,0.98907578,0.987931311,0.986355305,0.984736264,0.983175099,0.981558323,0.979861379,0.978061736,0.976157427,0.974137843,0.97199899,0.969732761,0.967333198,0.964791536,0.962101161,0.959253967,0.95624274,0.953060091,0.949698389,0.946149826,0.942407191,0.93846339,0.934311271,0.929944992,0.925356805,0.920540452,0.915489614,0.910198689,0.904662073,0.898875535,0.892833829,0.886533737,0.879971266,0.873143792,0.86604768,0.858681262,0.851042032,0.843129694,0.834943533,0.826483965,0.817750514,0.808744967,0.79946816,0.789923489,0.780113757,0.770043135,0.759714603,0.74913311,0.738302886,0.727229893,0.71592021,0.704381406,0.692619681,0.680643857,0.668461621,0.656082988,0.643517911,0.630775511,0.617864192,0.604795456,0.591579974,0.578228951,0.564753592,0.55117029,0.537490487,0.523726344,0.50989157,0.496000797,0.482066303,0.46810171,0.454121709,0.440142184,0.426177293,0.412241787,0.398349971,0.384517223,0.370758384,0.357088685,0.343522877,0.330076367,0.316764027,0.30360046,0.290599614,0.277775854,0.265143454,0.252716184,0.240506992,0.228528395,0.216793343,0.205313995,0.194102198,0.183168083,0.172522202,0.162173539,0.152132064,0.142405286,0.133001521,0.123926066,0.115185827,0.106784046,0.0987263769,0.0910137892,0.0836505741,0.076635085,0.0699703321,0.0636518821,0.0576817617,0.052052442,0.0467653833,0.0418095067,0.0371864028,0.0328807272,0.0288954843,0.025209805,0.0218305755,0.0187289622,0.0159212779,0.013363814,0.0110855885,0.00894347392,0.00675812503,0.00350443809,};
static const float win_3_5[]={0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,9.42341174e-08,6.19838374e-07,1.8260381e-06,4.2274155e-06,8.56822135e-06,1.59013834e-05,2.76738483e-05,4.58246141e-05,7.28956657e-05,0.000112155336,0.000167733029,0.000244763592,0.00034953907,0.000489664846,0.000674216484,0.000913893222,0.00122116262,0.00161039189,0.00209795963,0.00270234118,0.0034441629,0.00434621749,0.00543343695,0.00673281262,0.00827326626,0.010085457,0.0122015327,0.014654818,0.0174794346,0.0207098722,0.0243804958,0.0285249949,0.0331758074,0.0383635014,0.0441161096,0.050458502,0.0574117042,0.0649922863,0.0732117295,0.0820759088,0.0915845558,0.101730898,0.112501279,0.123875007,0.135824218,0.148313895,0.16130209,0.174740151,0.188573152,0.202740535,0.217176691,0.231811777,0.246572644,0.261383832,0.276168495,0.290849626,0.305351138,0.319598824,0.333521664,0.347052664,0.360129982,0.37269792,0.384707332,0.396116525,0.406891733,0.417007536,0.426446915,0.435201406,0.443271041,0.450664014,0.457396388,0.463491529,0.468979478,0.473896384,0.478283674,0.482187212,0.485656589,0.488744229,0.491504699,0.493993789,0.496267974,0.49838376,0.500396967,0.50236243,0.504333496,0.506361604,0.508496106,0.510783911,0.513269365,0.515994072,0.518996596,0.522312462,0.525973916,0.530009925,0.534445822,0.539303243,0.54460007,0.550350249,0.556563497,0.563245535,0.570397854,0.578017771,0.586098313,0.594628513,0.60359329,0.612973869,0.622747838,0.63288945,0.643370092,0.654158235,0.665220201,0.676520288,0.688021243,0.699684739,0.711471498,0.723342001,0.735256732,0.747176409,0.759062469,0.770877421,0.782584906,0.794150114,0.805540025,0.816723466,0.827671409,0.838356972,0.848755658,0.858845115,0.868605733,0.878019989,0.88707298,0.895752132,0.904047191,0.91195029,0.919455826,0.926560223,0.933262229,0.939562619,0.945464134,0.950971425,0.956090987,0.960831106,0.965201676,0.969214201,0.972881556,0.976217866,0.97923851,0.981959701,0.984398544,0.986572623,0.988499999,0.99019897,0.991687655,0.992984235,0.994106293,0.995071113,0.995895147,0.996594131,0.997182965,0.997675478,0.998084545,0.998421967,0.998698533,0.998923838,0.999106586,0.999254227,0.999373496,0.999470055,0.999548733,0.999613643,0.999668002,0.999714673,0.99975574,0.999792874,0.999827385,0.999860168,0.999891937,0.99992311,0.999953985,0.999984682,1.00001526,1.00004578,1.00007617,1.00010622,1.00013602,1.00016546,1.00019431,1.00022256,1.0002501,1.00027692,1.00030291,1.00032794,1.00035203,1.00037491,1.00039685,1.00041747,1.0004369,1.00045502,1.00047183,1.00048721,1.00050116,1.00051367,1.00052476,1.00053418,1.00054228,1.00054872,1.00055361,1.00055695,1.00055885,1.00055909,1.0005579,1.00055504,1.00055087,1.00054502,1.00053787,1.00052929,1.00051928,1.00050783,1.0004952,1.00048113,1.00046599,1.00044954,1.00043201,1.0004133,1.00039363,1.00037301,1.00035143,1.0003289,1.00030565,1.00028157,1.0002569,1.0002315,1.00020564,1.00017929,1.00015235,1.00012517,1.00009763,1.00006998,1.00004208,1.00001407,0.999985993,0.999957979,0.999930084,0.999902308,0.99987483,0.999847591,0.999820769,0.999794364,0.999768496,0.999743164,0.999718428,0.999694467,0.999671161,0.99964875,0.999627173,0.99960649,0.999586821,0.999568224,0.999550641,0.999534249,0.99951905,0.999505103,0.999492407,0.999481022,0.999471009,0.999462426,0.999455214,0.999449492,0.9994452,0.999442458,0.999441206,0.999441504,0.999443293,0.99944669,0.999451578,0.999458075,0.999466062,0.999475598,0.999486566,0.999499083,0.99951303,0.999528408,0.999545157,0.999563277,0.999582708,0.999603331,0.999625206,0.999648154,0.999672174,0.999697208,0.999723136,0.999749959,0.999777496,0.999805748,0.999834597,0.999863982,0.999893785,0.999923885,0.999954224,0.999984741,1.00001526,1.00004578,1.00007617,1.00010622,1.00013602,1.00016546,1.00019431,1.00022256,1.0002501,1.00027692,1.00030291,1.00032794,1.00035203,1.00037491,1.00039685,1.00041747,1.0004369,1.00045502,1.00047183,1.00048721,1.00050116,1.00051367,1.00052476,1.00053418,1.00054228,1.00054872,1.00055361,1.00055695,1.00055885,1.00055909,1.0005579,1.00055504,1.00055087,1.00054502,1.00053787,1.00052929,1.00051928,1.00050783,1.0004952,1.00048113,1.00046599,1.00044954,1.00043201,1.0004133,1.00039363,1.00037301,1.00035143,1.0003289,1.00030565,1.00028157,1.0002569,1.0002315,1.00020564,1.00017929,1.00015235,1.00012517,1.00009763,1.00006998,1.00004208,1.00001407,0.999985993,0.999957979,0.999930084,0.999902308,0.99987483,0.999847591,0.999820769,0.999794364,0.999768496,0.999743164,0.999718428,0.999694467,0.999671161,0.99964875,0.999627173,0.99960649,0.999586821,0.999568224,0.999550641,0.999534249,0.99951905,0.999505103,0.999492407,0.999481022,0.999471009,0.999462426,0.999455214,0.999449492,0.9994452,0.999442458,0.999441206,0.999441504,0.999443293,0.99944669,0.999451578,0.999458075,0.999466062,0.999475598,0.999486566,0.999499083,0.99951303,0.999528408,0.999545157,0.999563277,0.999582708,0.999603331,0.999625206,0.999648154,0.999672174,0.999697208,0.999723136,0.999749959,0.999777496,0.999805748,0.999834597,0.999863982,0.999893785,0.999923885,0.999954224,0.999984741,1.00001526,1.00004578,1.00007617,1.00010622,1.00013602,1.00016546,1.00019431,1.00022256,1.0002501,1.00027692,1.00030291,1.00032794,1.00035203,1.00037491,1.00039685,1.00041747,1.0004369,1.00045502,1.00047183,1.00048721,1.00050116,1.00051367,1.00052476,1.00053418,1.00054228,1.00054872,1.00055361,1.00055695,1.00055885,1.00055909,1.0005579,1.00055504,1.00055087,1.00054502,1.00053787,1.00052929,1.00051928,1.00050783,1.0004952,1.00048113,1.00046599,1.00044954,1.00043201,1.0004133,1.00039363,1.00037301,1.00035143,1.0003289,1.00030565,1.00028157,1.0002569,1.0002315,1.00020564,1.00017929,1.00015235,1.00012517,1.00009763,1.00006998,1.00004208,1.00001407,0.999985993,0.999957979,0.999930084,0.999902308,0.99987483,0.999847591,0.999820769,0.999794364,0.999768496,0.999743164,0.999718428,0.999694467,0.999671161,0.99964875,0.999627173,0.99960649,0.999586821,0.999568224,0.999550641,0.999534249,0.99951905,0.999505103,0.999492407,0.999481022,0.999471009,0.999462426,0.999455214,0.999449492,0.9994452,0.999442458,0.999441206,0.999441504,0.999443293,0.99944669,0.999451578,0.999458075,0.999466062,0.999475598,0.999486566,0.999499083,0.99951303,0.999528408,0.999545157,0.999563277,0.999582708,0.999603331,0.999625206,0.999648154,0.999672174,0.999697208,0.999723136,0.999749959,0.999777496,0.999805748,0.999834597,0.999863982,0.999893785,0.999923885,0.999954224,0.999984741,1.00001526,1.00004554,1.00007534,1.00010443,1.0001322,1.00015819,1.00018132,1.00020075,1.00021482,1.00022173,1.00021923,1.00020432,1.00017369,1.00012279,1.00004685,0.999939978,0.999795198,0.999604583,0.99935925,0.999048889,0.998662114,0.998186171,0.997606814,0.996908367,0.996073723,0.995083988,0.993918717,0.992555678,0.990970671,0.989137888,0.987029374,0.984615326,0.981863916,0.978741586,0.975212753,0.971240282,0.966785491,0.961808383,0.956268132,0.95012331,0.943332374,0.935854316,0.927648962,0.918677926,0.90890491,0.898296535,0.886823177,0.874459147,0.861183822,0.846981943,0.831844091,0.815767467,0.798755884,0.780820429,0.76197952,0.742259145,0.72169286,0.700321794,0.678194642,0.655367255,0.631902635,0.60787046,0.583346546,0.558412433,0.533154905,0.507664979,0.482037485,0.456370175,0.430762708,0.405315757,0.380130053,0.355305195,0.330938727,0.307124883,0.283953428,0.261508703,0.239868388,0.219102606,0.199272946,0.180431694,0.162621215,0.145873442,0.130209655,0.115640387,0.102165572,0.0897749513,0.0784486011,0.0681576878,0.0588653944,0.0505279638,0.0430957973,0.0365146622,0.0307268873,0.0256725382,0.0212905537,0.0175197981,0.0143000064,0.0115726292,0.00928153656,0.00737359654,0.00579912262,0.00451218896,0.00347083295,0.00263714185,0.00197724649,0.00146123092,0.00106297329,0.000759930001,0.000532880833,0.000365644053,0.00024477538,0.000159260671,0.000100211051,6.05685127e-05,3.48275607e-05,1.87775731e-05,9.26902067e-06,4.00523413e-06,1.3598916e-06,2.06769442e-07,};
static const float win_3_6[]={0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,6.66310811e-08,2.23723916e-07,4.87541854e-07,8.99672727e-07,1.5114183e-06,2.38590815e-06,3.6000215e-06,5.24645884e-06,7.43599958e-06,1.02999529e-05,1.39928125e-05,1.86951092e-05,2.461648e-05,3.19989194e-05,4.11202636e-05,5.22978444e-05,6.589236e-05,8.23118899e-05,0.000102016144,0.000125520819,0.000153402099,0.00018630136,0.000224929841,0.000270073535,0.000322598062,0.000383453589,0.000453679706,0.000534410414,0.000626878755,0.000732421642,0.000852484489,0.000988625223,0.00114251883,0.00131596089,0.00151087111,0.00172929652,0.00197341433,0.00224553375,0.0025480981,0.00288368552,0.00325501012,0.00366492104,0.00411640201,0.00461257016,0.00515667303,0.00575208431,0.00640230207,0.00711094262,0.00788173359,0.00871850923,0.00962519925,0.0106058242,0.0116644828,0.0128053408,0.0140326228,0.0153505951,0.0167635549,0.018275816,0.0198916886,0.0216154736,0.0234514344,0.0254037846,0.0274766665,0.0296741407,0.0320001543,0.0344585292,0.0370529443,0.0397869013,0.0426637232,0.0456865206,0.0488581695,0.0521813035,0.0556582808,0.0592911765,0.0630817562,0.067031458,0.0711413696,0.0754122287,0.0798443928,0.0844378322,0.0891921073,0.0941063836,0.0991793722,0.104409374,0.109794252,0.115331404,0.121017799,0.126849949,0.132823929,0.138935357,0.145179421,0.151550874,0.158044025,0.16465281,0.17137073,0.178190947,0.185106188,0.192108899,0.199191183,0.206344813,0.213561311,0.22083196,0.22814779,0.23549965,0.242878228,0.250274092,0.257677704,0.265079439,0.27246967,0.279838771,0.287177145,0.294475257,0.301723719,0.308913231,0.316034675,0.323079228,0.33003819,0.336903185,0.343666196,0.350319386,0.356855512,0.363267571,0.369548947,0.3756935,0.381695598,0.387549996,0.393251985,0.398797333,0.404182315,0.409403801,0.414459109,0.419346124,0.424063236,0.428609401,0.432984143,0.437187403,0.441219747,0.445082188,0.448776275,0.452303976,0.455667824,0.458870709,0.461916,0.464807451,0.467549264,0.470145911,0.472602278,0.474923581,0.477115244,0.479183048,0.481132984,0.482971221,0.484704226,0.486338496,0.487880766,0.489337832,0.490716666,0.492024213,0.493267536,0.494453669,0.495589703,0.496682733,0.497739762,0.498767793,0.499773741,0.500764489,0.501746774,0.50272727,0.503712595,0.504709125,0.505723178,0.506760955,0.507828474,0.508931518,0.510075927,0.511267185,0.512510598,0.513811469,0.515174806,0.516605377,0.518107831,0.51968658,0.521345973,0.523089945,0.524922311,0.526846766,0.528866649,0.530985177,0.533205211,0.535529494,0.537960529,0.540500462,0.543151379,0.545914948,0.54879266,0.551785827,0.554895282,0.5581218,0.5614658,0.564927518,0.568506777,0.572203338,0.576016545,0.579945564,0.583989203,0.588146091,0.592414677,0.596792936,0.601278901,0.605870068,0.610563993,0.615357757,0.620248437,0.625232756,0.630307317,0.635468543,0.640712619,0.646035612,0.651433527,0.656902015,0.662436843,0.668033481,0.673687398,0.679393888,0.685148239,0.690945625,0.696781278,0.70265013,0.708547413,0.714468122,0.720407307,0.726359963,0.732321203,0.738286138,0.74424988,0.750207603,0.756154597,0.762086034,0.767997444,0.773884177,0.779741824,0.785566032,0.79135257,0.797097266,0.802796185,0.808445334,0.814041018,0.819579542,0.825057447,0.830471396,0.835818112,0.841094613,0.84629792,0.851425231,0.856473923,0.861441612,0.866325855,0.871124566,0.875835657,0.880457282,0.884987772,0.889425457,0.893768966,0.898017049,0.902168512,0.906222403,0.910177886,0.914034188,0.917790771,0.921447217,0.925003231,0.928458691,0.931813419,0.935067594,0.938221455,0.941275299,0.944229603,0.947084904,0.949841976,0.952501595,0.955064654,0.957532167,0.959905326,0.962185323,0.964373529,0.966471374,0.968480289,0.970402002,0.972238123,0.97399044,0.975660801,0.977251112,0.978763342,0.980199575,0.98156178,0.982852161,0.984072864,0.985226095,0.986314118,0.987339139,0.988303483,0.989209354,0.990059078,0.990854919,0.991599143,0.992294014,0.992941797,0.993544638,0.994104803,0.994624376,0.995105505,0.995550215,0.995960534,0.996338427,0.996685863,0.997004628,0.997296572,0.997563362,0.997806728,0.998028338,0.998229563,0.998412073,0.998577118,0.998726189,0.998860478,0.998981178,0.999089479,0.999186397,0.999273062,0.999350369,0.999419153,0.999480307,0.999534547,0.999582708,0.999625325,0.999663055,0.999696434,0.999726057,0.999752283,0.999775589,0.999796331,0.999814928,0.999831557,0.999846578,0.999860287,0.999872804,0.999884307,0.999895036,0.999905109,0.999914587,0.999923646,0.999932408,0.999940872,0.999949098,0.999957144,0.999965072,0.999972939,0.999980748,0.999988437,0.999996126,1.00000381,1.00001144,1.00001907,1.0000267,1.00003433,1.00004184,1.00004935,1.00005686,1.00006437,1.00007176,1.00007904,1.00008631,1.00009358,1.00010073,1.00010777,1.0001148,1.00012159,1.00012839,1.00013518,1.00014174,1.0001483,1.00015461,1.00016093,1.00016701,1.00017309,1.00017893,1.00018466,1.00019026,1.00019574,1.00020099,1.00020623,1.00021124,1.00021613,1.00022078,1.00022531,1.00022972,1.00023389,1.00023794,1.00024176,1.00024545,1.00024891,1.00025225,1.00025535,1.00025833,1.00026107,1.00026357,1.00026596,1.00026822,1.00027013,1.00027204,1.00027359,1.00027502,1.00027621,1.00027728,1.00027812,1.00027883,1.00027919,1.00027955,1.00027955,1.00027943,1.00027919,1.00027859,1.000278,1.00027704,1.00027597,1.00027478,1.00027335,1.00027168,1.00026989,1.00026786,1.00026572,1.00026345,1.00026095,1.00025821,1.00025535,1.00025237,1.00024927,1.00024593,1.00024235,1.00023878,1.00023496,1.00023091,1.00022686,1.00022256,1.00021827,1.00021374,1.00020909,1.00020421,1.00019932,1.00019431,1.00018907,1.00018382,1.00017846,1.00017297,1.00016737,1.00016165,1.00015581,1.00014985,1.00014389,1.00013781,1.00013161,1.00012529,1.00011897,1.00011253,1.0001061,1.00009954,1.00009298,1.00008631,1.00007963,1.00007284,1.00006604,1.00005913,1.00005233,1.00004542,1.0000385,1.00003147,1.00002456,1.00001752,1.00001049,1.00000346,0.999996483,0.99998951,0.999982476,0.999975502,0.999968529,0.999961555,0.999954641,0.999947727,0.999940813,0.999933958,0.999927163,0.999920428,0.999913692,0.999907076,0.99990046,0.999893904,0.999887466,0.999881029,0.999874711,0.999868453,0.999862254,0.999856174,0.999850154,0.999844253,0.999838412,0.99983269,0.999827087,0.999821603,0.999816179,0.999810934,0.999805748,0.999800682,0.999795794,0.999791026,0.999786317,0.999781847,0.999777436,0.999773204,0.999769092,0.999765158,0.999761343,0.999757707,0.99975419,0.999750853,0.999747694,0.999744654,0.999741852,0.99973917,0.999736667,0.999734342,0.999732137,0.99973017,0.999728382,0.999726772,0.999725342,0.99972409,0.999723017,0.999722123,0.999721408,0.999720931,0.999720633,0.999720514,0.999720573,0.999720812,0.999721289,0.999721944,0.999722779,0.999723792,0.999725044,0.999726474,0.999728084,0.999729872,0.999731898,0.999734104,0.999736488,0.999739051,0.999741793,0.999744713,0.999747872,0.999751151,0.999754667,0.999758303,0.999762177,0.999766171,0.999770403,0.999774754,0.999779284,0.999783993,0.999788821,0.999793828,0.999799013,0.999804318,0.999809742,0.999815404,0.999821126,0.999826968,0.999832988,0.999839127,0.999845386,0.999851763,0.99985826,0.999864876,0.999871552,0.999878347,0.999885261,0.999892235,0.999899328,0.99990648,0.999913692,0.999920964,0.999928296,0.999935687,0.999943137,0.999950647,0.999958158,0.999965727,0.999973297,0.999980927,0.999988556,0.999996185,1.00000381,1.00001144,1.00001907,1.0000267,1.00003433,1.00004184,1.00004935,1.00005686,1.00006437,1.00007176,1.00007904,1.00008631,1.00009358,1.00010073,1.00010777,1.0001148,1.00012159,1.00012839,1.00013518,1.00014174,1.0001483,1.00015461,1.00016093,1.00016701,1.00017309,1.00017893,1.00018466,1.00019026,1.00019574,1.00020099,1.00020623,1.00021124,1.00021613,1.00022078,1.00022531,1.00022972,1.00023389,1.00023794,1.00024176,1.00024545,1.00024891,1.00025225,1.00025535,1.00025833,1.00026107,1.00026357,1.00026596,1.00026822,1.00027013,1.00027204,1.00027359,1.00027502,1.00027621,1.00027728,1.00027812,1.00027883,1.00027919,1.00027955,1.00027955,1.00027943,1.00027919,1.00027859,1.000278,1.00027704,1.00027597,1.00027478,1.00027335,1.00027168,1.00026989,1.00026786,1.00026572,1.00026345,1.00026095,1.00025821,1.00025535,1.00025237,1.00024927,1.00024593,1.00024235,1.00023878,1.00023496,1.00023091,1.00022686,1.00022256,1.00021827,1.00021374,1.00020909,1.00020421,1.00019932,1.00019431,1.00018907,1.00018382,1.00017846,1.00017297,1.00016737,1.00016165,1.00015581,1.00014985,1.00014389,1.00013781,1.00013161,1.00012529,1.00011897,1.00011253,1.0001061,1.00009954,1.00009298,1.00008631,1.00007963,1.00007284,1.00006604,1.00005913,1.00005233,1.00004542,1.0000385,1.00003147,1.00002456,1.00001752,1.00001049,1.00000346,0.999996483,0.99998951,0.999982476,0.999975502,0.999968529,0.999961555,0.999954641,0.999947727,0.999940813,0.999933958,0.999927163,0.999920428,0.999913692,0.999907076,0.99990046,0.999893904,0.999887466,0.999881029,0.999874711,0.999868453,0.999862254,0.999856174,0.999850154,0.999844253,0.999838412,0.99983269,0.999827087,0.999821603,0.999816179,0.999810934,0.999805748,0.999800682,0.999795794,0.999791026,0.999786317,0.999781847,0.999777436,0.999773204,0.999769092,0.999765158,0.999761343,0.999757707,0.99975419,0.999750853,0.999747694,0.999744654,0.999741852,0.99973917,0.999736667,0.999734342,0.999732137,0.99973017,0.999728382,0.999726772,0.999725342,0.99972409,0.999723017,0.999722123,0.999721408,0.999720931,0.999720633,0.999720514,0.999720573,0.999720812,0.999721289,0.999721944,0.999722779,0.999723792,0.999725044,0.999726474,0.999728084,0.999729872,0.999731898,0.999734104,0.999736488,0.999739051,0.999741793,0.999744713,0.999747872,0.999751151,0.999754667,0.999758303,0.999762177,0.999766171,0.999770403,0.999774754,0.999779284,0.999783993,0.999788821,0.999793828,0.999799013,0.999804318,0.999809742,0.999815404,0.999821126,0.999826968,0.999832988,0.999839127,0.999845386,0.999851763,0.99985826,0.999864876,0.999871552,0.999878347,0.999885261,0.999892235,0.999899328,0.99990648,0.999913692,0.999920964,0.999928296,0.999935687,0.999943137,0.999950647,0.999958158,0.999965727,0.999973297,0.999980927,0.999988556,0.999996185,1.00000381,1.00001144,1.00001907,1.0000267,1.00003433,1.00004184,1.00004935,1.00005686,1.00006437,1.00007176,1.00007904,1.00008631,1.00009358,1.00010073,1.00010777,1.0001148,1.00012159,1.00012839,1.00013518,1.00014174,1.0001483,1.00015461,1.00016093,1.00016701,1.00017309,1.00017893,1.00018466,1.00019026,1.00019574,1.00020099,1.00020623,1.00021124,1.00021613,1.00022078,1.00022531,1.00022972,1.00023389,1.00023794,1.00024176,1.00024545,1.00024891,1.00025225,1.00025535,1.00025833,1.00026107,1.00026357,1.00026596,1.00026822,1.00027013,1.00027204,1.00027359,1.00027502,1.00027621,1.00027728,1.00027812,1.00027883,1.00027919,1.00027955,1.00027955,1.00027943,1.00027919,1.00027859,1.000278,1.00027704,1.00027597,1.00027478,1.00027335,1.00027168,1.00026989,1.00026786,1.00026572,1.00026345,1.00026095,1.00025821,1.00025535,1.00025237,1.00024927,1.00024593,1.00024235,1.00023878,1.00023496,1.00023091,1.00022686,1.00022256,1.00021827,1.00021374,1.00020909,1.00020421,1.00019932,1.00019431,1.00018907,1.00018382,1.00017846,1.00017297,1.00016737,1.00016165,1.00015581,1.00014985,1.00014389,1.00013781,1.00013161,1.00012529,1.00011897,1.00011253,1.0001061,1.00009954,1.00009298,1.00008631,1.00007963,1.00007284,1.00006604,1.00005913,1.00005233,1.00004542,1.0000385,1.00003147,1.00002456,1.00001752,1.00001049,1.00000346,0.999996483,0.99998951,0.999982476,0.999975502,0.999968529,0.999961555,0.999954641,0.999947727,0.999940813,0.999933958,0.999927163,0.999920428,0.999913692,0.999907076,0.99990046,0.999893904,0.999887466,0.999881029,0.999874711,0.999868453,0.999862254,0.999856174,0.999850154,0.999844253,0.999838412,0.99983269,0.999827087,0.999821603,0.999816179,0.999810934,0.999805748,0.999800682,0.999795794,0.999791026,0.999786317,0.999781847,0.999777436,0.999773204,0.999769092,0.999765158,0.999761343,0.999757707,0.99975419,0.999750853,0.999747694,0.999744654,0.999741852,0.99973917,0.999736667,0.999734342,0.999732137,0.99973017,0.999728382,0.999726772,0.999725342,0.99972409,0.999723017,0.999722123,0.999721408,0.999720931,0.999720633,0.999720514,0.999720573,0.999720812,0.999721289,0.999721944,0.999722779,0.999723792,0.999725044,0.999726474,0.999728084,0.999729872,0.999731898,0.999734104,0.999736488,0.999739051,0.999741793,0.999744713,0.999747872,0.999751151,0.999754667,0.999758303,0.999762177,0.999766171,0.999770403,0.999774754,0.999779284,0.999783993,0.999788821,0.999793828,0.999799013,0.999804318,0.999809742,0.999815404,0.999821126,0.999826968,0.999832988,0.999839127,0.999845386,0.999851763,0.99985826,0.999864876,0.999871552,0.999878347,0.999885261,0.999892235,0.999899328,0.99990648,0.999913692,0.999920964,0.999928296,0.999935687,0.999943137,0.999950647,0.999958158,0.999965727,0.999973297,0.999980927,0.999988556,0.999996185,1.00000381,1.00001132,1.00001884,1.00002635,1.00003362,1.00004077,1.0000478,1.0000546,1.00006104,1.00006711,1.00007272,1.00007772,1.00008214,1.00008571,1.00008833,1.00008976,1.00008988,1.00008845,1.00008512,1.00007975,1.000072,1.00006139,1.00004768,1.00003028,1.00000894,0.999982893,0.999951661,0.999914646,0.999871135,0.999820411,0.999761701,0.999694109,0.999616742,0.999528646,0.999428689,0.999315858,0.99918884,0.999046445,0.99888736,0.998710036,0.998513043,0.998294711,0.998053491,0.997787535,0.997494996,0.997173846,0.996822178,0.996437728,0.996018291,0.99556154,0.995064974,0.994526088,0.993942142,0.993310452,0.992628038,0.991891921,0.991099,0.990245998,0.989329517,0.988346159,0.98729229,0.986164153,0.984957933,0.983669639,0.982295156,0.980830312,0.979270697,0.977612019,0.975849628,0.973978817,0.971994996,0.969893157,0.967668533,0.965315938,0.962830484,0.960206985,0.957440197,0.954525113,0.951456368,0.948228836,0.944837391,0.941276729,0.937541902,0.933627844,0.929529607,0.925242424,0.920761466,0.916082382,0.911200643,0.906112134,0.900812864,0.895299196,0.889567554,0.883614719,0.87743783,0.871034324,0.864401877,0.857538521,0.850442827,0.843113542,0.835549891,0.827751517,0.819718421,0.811451137,0.802950621,0.794218183,0.785255671,0.77606535,0.766650081,0.757013023,0.747157931,0.737088978,0.726810873,0.716328681,0.705648124,0.694775164,0.683716357,0.672478795,0.66106981,0.64949733,0.63776958,0.625895321,0.613883674,0.601744056,0.589486361,0.577120781,0.564657867,0.552108407,0.539483547,0.526794672,0.514053404,0.501271665,0.488461435,0.475634992,0.462804615,0.449982822,0.437182158,0.424415171,0.411694527,0.399032772,0.386442453,0.373936087,0.361525953,0.349224269,0.337043047,0.324994087,0.313088894,0.301338732,0.28975445,0.278346658,0.267125458,0.256100595,0.245281324,0.234676436,0.224294156,0.214142203,0.204227716,0.194557235,0.185136691,0.175971389,0.167065978,0.158424467,0.150050193,0.141945809,0.134113312,0.126554012,0.119268581,0.112257004,0.105518632,0.0990521908,0.0928557739,0.0869268849,0.0812624842,0.0758589506,0.070712164,0.0658175275,0.0611699894,0.0567640625,0.0525939018,0.0486532971,0.0449357443,0.0414344519,0.0381424055,0.0350523964,0.0321570449,0.0294488575,0.0269202497,0.0245635863,0.0223712083,0.0203354694,0.0184487645,0.0167035554,0.0150924018,0.0136079816,0.0122431125,0.0109907771,0.00984413363,0.00879654102,0.00784156192,0.00697298534,0.0061848294,0.00547135156,0.00482705561,0.0042466945,0.00372527563,0.00325805834,0.00284055714,0.002468538,0.00213801605,0.001845252,0.00158674677,0.00135923503,0.00115967961,0.000985263032,0.000833379803,0.00070162816,0.000587800692,0.0004898755,0.000406006613,0.000334514218,0.000273875427,0.000222714254,0.000179792376,0.000143999539,0.000114344395,8.99455481e-05,7.00227974e-05,5.38887325e-05,4.09407221e-05,3.06531692e-05,2.25702297e-05,1.62988836e-05,1.15024377e-05,7.89443584e-06,5.23298331e-06,3.31548563e-06,1.97379018e-06,1.06971811e-06,4.90905393e-07,1.46209757e-07,};
static const float *const win[4][7]={{win_0_0,win_0_1,win_0_2,win_0_3,win_0_4,win_0_5,win_0_6,},{win_1_0,win_1_1,win_1_2,win_1_3,win_1_4,win_1_5,win_1_6,},{win_2_0,win_2_1,win_2_2,win_2_3,win_2_4,0,0,},{win_3_0,win_3_1,win_3_2,win_3_3,win_3_4,win_3_5,win_3_6,},};
static const float lfcb[32][8]={{2.2628336,0.813311279,-0.530193508,-1.35664833,-1.59952176,-1.44098771,-1.14381647,-0.755203784,},{2.94516468,2.41143322,0.96045512,-0.443226486,-1.22913611,-1.55590034,-1.49688661,-1.11689985,},{-2.18610716,-1.97152138,-1.78718615,-1.91865897,-1.79399121,-1.35738409,-0.705444276,-0.0478172936,},{0.693688214,0.955609858,0.575230777,-0.114603423,-0.646050632,-0.952351391,-1.07405245,-0.758087695,},{-1.29752135,-0.740369081,-0.345372498,-0.313285708,-0.402977228,-0.372020841,-0.078341417,0.0970441326,},{0.91465205,1.74293041,1.90906632,1.54408479,1.09344959,0.647479534,0.0361790769,-0.297092795,},{-2.51428819,-2.89175272,-2.00450659,-0.750912249,0.441202104,1.2019099,1.32742858,1.22049081,},{-0.922188401,0.632495165,1.08736432,0.608628631,0.131174564,-0.296149164,-0.207013518,0.134924918,},{0.790322304,0.628401279,0.393117934,0.480007708,0.44781515,0.209734216,0.00656691985,-0.0861242339,},{1.44775581,2.7239995,2.31083274,0.935051262,-0.274743915,-0.902077675,-0.940681517,-0.633697033,},{0.793354511,0.0143931182,-0.567834854,-0.65476048,-0.479458988,-0.173894659,0.0680162683,0.295125961,},{2.72425342,2.95947576,1.84953558,0.563284934,0.139917091,0.359641105,0.68946135,0.639790177,},{-0.530830204,-0.212690681,0.00576613611,0.424871475,0.473128945,0.858894169,1.19111156,0.996189654,},{1.68728411,2.43614507,2.33019423,1.77983773,1.4441129,1.51995182,1.47199392,0.977682471,},{-2.95183277,-1.59393501,-0.109918773,0.388609082,0.512932658,0.628112614,0.822621822,0.875891447,},{0.101878345,0.58985734,0.619047642,1.26731312,2.4196105,2.2517426,0.526537061,-0.396591514,},{2.68254566,1.32738006,0.130185276,-0.338533103,-0.368219227,-0.191689953,-0.15478237,-0.234207183,},{4.82697916,3.11947799,1.39513671,0.250295311,-0.393613845,-0.643458188,-0.642570734,-0.723193228,},{0.0878419951,-0.569586813,-1.14506018,-1.66968489,-1.84534419,-1.56468022,-1.11746764,-0.533981681,},{1.39102304,1.98146474,1.1126579,-0.220107511,-0.774965584,-0.594063878,0.136937678,0.818242908,},{0.384585887,-0.160588786,-0.539366782,-0.529309094,0.190433547,2.56062913,2.818964,0.656670868,},{1.93227398,3.01030183,3.06543899,2.50110149,1.93089592,0.572153807,-0.811741769,-1.17641807,},{0.175080463,-0.750522852,-1.03943896,-1.13577509,-1.04197907,-0.0152060101,2.07048392,3.42948914,},{-1.18817019,0.366792887,1.3095783,1.68330681,1.25100923,0.942375779,0.826250494,0.439952731,},{2.53322196,2.11274648,1.26288414,0.761513531,0.522117913,0.118680067,-0.452346832,-0.70035243,},{3.99889827,4.07901764,2.82285666,1.72607207,0.647144377,-0.331148535,-0.884042561,-1.12697339,},{0.507902622,1.58838451,1.7289902,1.00692225,0.37712124,0.476370782,1.08754742,1.08756268,},{3.16856813,3.25853467,2.42230582,1.79446077,1.52177906,1.17196703,0.489394605,-0.0622795708,},{1.89414763,1.25108695,0.590451241,0.608358562,0.878171027,1.11912513,1.01857662,0.620453894,},{0.948880613,2.13239431,2.72345352,2.76986074,2.54286981,2.02046275,0.830045879,-0.0275569167,},{-1.88026762,-1.26431072,0.311424971,1.83670211,2.25634193,2.04818988,2.19526839,2.02659607,},{0.24637574,0.955621779,1.52046776,1.97647405,1.94043863,2.23375845,1.98835981,1.27232671,},};
static const float hfcb[32][8]={{0.232028425,-1.00890267,-2.14223504,-2.37533808,-2.2304194,-2.17595887,-2.29065919,-2.53286409,},{-1.29503942,-1.7992996,-1.88703144,-1.80991662,-1.76340044,-1.83418429,-1.80480981,-1.73679543,},{0.139285713,-0.258185118,-0.650804579,-1.06815732,-1.61928737,-2.18762565,-2.63757586,-2.97897744,},{-0.316513091,-0.477747649,-0.551162064,-0.484788269,-0.238388389,-0.143024504,0.068318665,0.0883061737,},{0.87951839,0.298340082,-0.915386379,-2.20645976,-2.7414217,-2.86139083,-2.88841605,-2.9518261,},{-0.296701908,-0.975004911,-1.35857499,-0.983721077,-0.652956963,-0.989987016,-1.6146723,-2.40712309,},{0.340981096,0.268899798,0.0563335679,0.0499114059,-0.0954130739,-0.760166168,-2.32758117,-3.77155495,},{-1.41229761,-1.48522115,-1.18603575,-0.625001609,0.153902501,0.576386511,0.795092583,0.596564651,},{-0.228839517,-0.333719075,-0.809321344,-1.6358788,-1.88486397,-1.64496696,-1.4051578,-1.46666467,},{-1.07148623,-1.41767013,-1.54891765,-1.45296061,-1.03182971,-0.690642655,-0.428843796,-0.494960219,},{-0.590988517,-0.0711737722,0.345719516,0.300549448,-1.11865222,-2.4408915,-2.22854733,-1.89509225,},{-0.848434091,-0.5832268,0.0900423676,0.845025003,1.0657239,0.737582982,0.256590456,-0.491963357,},{1.14069152,0.964016914,0.381461203,-0.48284933,-1.81632721,-2.80279517,-3.23385715,-3.45908713,},{-0.376283228,0.0425675474,0.51654768,0.251716882,-0.216179967,-0.534074068,-0.640786111,-0.869745016,},{0.665004134,1.09790766,1.38342667,1.34327364,0.822978854,0.215876803,-0.404925764,-1.07025611,},{-0.826265931,-0.671181262,-0.228495598,0.518980861,1.36721897,2.18023038,2.53596091,2.20121098,},{1.41008329,0.754441917,-1.30550587,-1.87133706,-1.24008679,-1.2671293,-2.03670812,-2.89685154,},{0.361386806,-0.021999171,-0.57936883,-0.879427969,-0.850685,-0.77939707,-0.73218292,-0.88834852,},{0.437469244,0.305440426,-0.0073878658,-0.495649844,-0.806651294,-1.22431886,-1.70157766,-2.24491906,},{0.648100317,0.682299137,0.25324747,0.0735842139,0.314216703,0.234729886,0.144600138,-0.0682120174,},{1.11919832,1.23465538,0.589170218,-1.37192464,-2.37095714,-2.00779772,-1.66688538,-1.92631841,},{0.141847491,-0.110660069,-0.282824606,-0.00659813453,0.285929292,0.0460445546,-0.602596402,-2.26568723,},{0.504046977,0.826982141,1.11981237,1.17914045,1.07987428,0.69753623,-0.91254884,-3.57684755,},{-0.501076043,-0.325678021,0.0280798189,0.262054563,0.360590816,0.635623693,0.959012449,1.30745161,},{3.74970984,1.52342618,-0.45771566,-0.798711002,-0.386819333,-0.375901073,-0.657836914,-1.2816397,},{-1.15258992,-1.10800886,-0.562615097,-0.22056213,-0.349842876,-0.753432751,-0.988596618,-1.28790474,},{1.02827251,1.09770525,0.768645525,0.206081972,-0.342805743,-0.754939377,-1.04196179,-1.50335658,},{0.128831968,0.689439416,1.123469,1.30934525,1.35511971,1.42311382,1.15706444,0.406319439,},{1.34033024,1.38996828,1.04467916,0.635822773,-0.274733752,-1.54923368,-2.44239712,-3.02457619,},{2.13843107,4.24711275,2.89734101,0.932730675,-0.292822242,-0.810404301,-0.78886807,-0.93535316,},{0.564830482,1.5918498,2.397717,3.03697348,2.66424346,1.39304483,0.403834015,-0.656270981,},{-0.422460556,0.326149613,1.39171314,2.23146605,2.61179447,2.66540337,2.40103555,1.75920379,},};
static const int vq_count[4]={2,4,4,8,};
static const float vq_gain[4][8]={{2.17651367,2.94287109,},{1.5246582,3.67260742,4.3605957,5.13037109,},{1.7331543,2.22949219,2.74731445,3.61523438,},{1.05859375,1.23706055,1.43920898,1.98950195,2.4987793,3.13110352,4.11816406,4.85400391,},};
static const int mpvq[16][11]={{0,1,1,1,1,1,1,1,1,1,1,},{0,1,3,5,7,9,11,13,15,17,19,},{0,1,5,13,25,41,61,85,113,145,181,},{0,1,7,25,63,129,231,377,575,833,1159,},{0,1,9,41,129,321,681,1289,2241,3649,5641,},{0,1,11,61,231,681,1683,3653,7183,13073,22363,},{0,1,13,85,377,1289,3653,8989,19825,40081,75517,},{0,1,15,113,575,2241,7183,19825,48639,108545,224143,},{0,1,17,145,833,3649,13073,40081,108545,265729,598417,},{0,1,19,181,1159,5641,22363,75517,224143,598417,1462563,},{0,1,21,221,1561,8361,36365,134245,433905,1256465,3317445,},{0,1,23,265,2047,11969,56695,227305,795455,2485825,7059735,},{0,1,25,313,2625,16641,85305,369305,1392065,4673345,14218905,},{0,1,27,365,3303,22569,124515,579125,2340495,8405905,27298155,},{0,1,29,421,4089,29961,177045,880685,3800305,14546705,50250765,},{0,1,31,481,4991,39041,246047,1303777,5984767,24331777,89129247,},};
struct Sym{int low,range;};
static const Sym tns_order[2][17]={{{0,3},{3,9},{12,23},{35,54},{89,111},{200,190},{390,268},{658,366},{1024,0},{1024,0},{1024,0},{1024,0},{1024,0},{1024,0},{1024,0},{1024,0},{1024,0},},{{0,14},{14,42},{56,100},{156,157},{313,181},{494,178},{672,167},{839,185},{1024,0},{1024,0},{1024,0},{1024,0},{1024,0},{1024,0},{1024,0},{1024,0},{1024,0},},};
static const Sym tns_coef[8][17]={{{0,1},{1,5},{6,15},{21,31},{52,54},{106,86},{192,97},{289,120},{409,159},{568,152},{720,111},{831,104},{935,59},{994,22},{1016,6},{1022,1},{1023,1},},{{0,1},{1,1},{2,1},{3,1},{4,13},{17,43},{60,94},{154,139},{293,173},{466,160},{626,154},{780,131},{911,78},{989,27},{1016,6},{1022,1},{1023,1},},{{0,1},{1,1},{2,1},{3,1},{4,9},{13,43},{56,106},{162,199},{361,217},{578,210},{788,141},{929,74},{1003,17},{1020,1},{1021,1},{1022,1},{1023,1},},{{0,1},{1,1},{2,1},{3,1},{4,2},{6,11},{17,49},{66,204},{270,285},{555,297},{852,120},{972,39},{1011,9},{1020,1},{1021,1},{1022,1},{1023,1},},{{0,1},{1,1},{2,1},{3,1},{4,1},{5,7},{12,42},{54,241},{295,341},{636,314},{950,58},{1008,9},{1017,3},{1020,1},{1021,1},{1022,1},{1023,1},},{{0,1},{1,1},{2,1},{3,1},{4,1},{5,1},{6,13},{19,205},{224,366},{590,377},{967,47},{1014,5},{1019,1},{1020,1},{1021,1},{1022,1},{1023,1},},{{0,1},{1,1},{2,1},{3,1},{4,1},{5,1},{6,13},{19,281},{300,330},{630,371},{1001,17},{1018,1},{1019,1},{1020,1},{1021,1},{1022,1},{1023,1},},{{0,1},{1,1},{2,1},{3,1},{4,1},{5,1},{6,5},{11,297},{308,1},{309,682},{991,26},{1017,2},{1019,1},{1020,1},{1021,1},{1022,1},{1023,1},},};
static const Sym spec_model[64][17]={{{0,1},{1,1},{2,175},{177,48},{225,1},{226,1},{227,109},{336,36},{372,171},{543,109},{652,47},{699,20},{719,49},{768,36},{804,20},{824,10},{834,190},},{{0,18},{18,26},{44,17},{61,10},{71,27},{98,37},{135,24},{159,16},{175,22},{197,32},{229,22},{251,14},{265,17},{282,26},{308,20},{328,13},{341,683},},{{0,71},{71,92},{163,49},{212,25},{237,81},{318,102},{420,61},{481,33},{514,42},{556,57},{613,39},{652,23},{675,22},{697,30},{727,22},{749,15},{764,260},},{{0,160},{160,130},{290,46},{336,18},{354,121},{475,123},{598,55},{653,24},{677,45},{722,55},{777,31},{808,15},{823,19},{842,24},{866,15},{881,9},{890,134},},{{0,71},{71,73},{144,33},{177,18},{195,71},{266,76},{342,43},{385,26},{411,34},{445,44},{489,30},{519,20},{539,20},{559,27},{586,21},{607,15},{622,402},},{{0,48},{48,60},{108,32},{140,19},{159,58},{217,68},{285,42},{327,27},{354,31},{385,42},{427,30},{457,21},{478,19},{497,27},{524,21},{545,16},{561,463},},{{0,138},{138,109},{247,43},{290,18},{308,111},{419,112},{531,53},{584,25},{609,46},{655,55},{710,32},{742,17},{759,21},{780,27},{807,18},{825,11},{836,188},},{{0,16},{16,24},{40,22},{62,17},{79,24},{103,36},{139,31},{170,25},{195,20},{215,30},{245,25},{270,20},{290,15},{305,22},{327,19},{346,16},{362,662},},{{0,579},{579,150},{729,12},{741,2},{743,154},{897,73},{970,10},{980,2},{982,14},{996,11},{1007,3},{1010,1},{1011,3},{1014,3},{1017,1},{1018,1},{1019,5},},{{0,398},{398,184},{582,25},{607,5},{612,176},{788,114},{902,23},{925,6},{931,25},{956,23},{979,8},{987,3},{990,6},{996,6},{1002,3},{1005,2},{1007,17},},{{0,13},{13,21},{34,18},{52,11},{63,20},{83,29},{112,22},{134,15},{149,14},{163,20},{183,16},{199,12},{211,10},{221,14},{235,12},{247,10},{257,767},},{{0,281},{281,183},{464,37},{501,9},{510,171},{681,139},{820,37},{857,10},{867,35},{902,36},{938,15},{953,6},{959,9},{968,10},{978,6},{984,3},{987,37},},{{0,198},{198,164},{362,46},{408,13},{421,154},{575,147},{722,51},{773,16},{789,43},{832,49},{881,24},{905,10},{915,13},{928,16},{944,10},{954,5},{959,65},},{{0,1},{1,1},{2,93},{95,44},{139,1},{140,1},{141,72},{213,38},{251,86},{337,70},{407,43},{450,25},{475,40},{515,36},{551,25},{576,16},{592,432},},{{0,133},{133,141},{274,64},{338,28},{366,117},{483,122},{605,59},{664,27},{691,39},{730,48},{778,29},{807,15},{822,15},{837,20},{857,13},{870,8},{878,146},},{{0,128},{128,125},{253,49},{302,18},{320,123},{443,134},{577,59},{636,23},{659,49},{708,59},{767,32},{799,15},{814,19},{833,24},{857,15},{872,9},{881,143},},{{0,1},{1,1},{2,23},{25,17},{42,1},{43,1},{44,23},{67,18},{85,20},{105,21},{126,18},{144,15},{159,15},{174,17},{191,14},{205,12},{217,807},},{{0,70},{70,96},{166,63},{229,38},{267,89},{356,112},{468,65},{533,36},{569,37},{606,47},{653,32},{685,20},{705,17},{722,23},{745,17},{762,12},{774,250},},{{0,55},{55,75},{130,45},{175,25},{200,68},{268,90},{358,58},{416,33},{449,39},{488,54},{542,39},{581,25},{606,22},{628,31},{659,24},{683,16},{699,325},},{{0,1},{1,2},{3,2},{5,2},{7,2},{9,2},{11,2},{13,2},{15,2},{17,2},{19,2},{21,2},{23,2},{25,2},{27,2},{29,2},{31,993},},{{0,34},{34,51},{85,38},{123,24},{147,49},{196,69},{265,52},{317,35},{352,34},{386,47},{433,37},{470,27},{497,21},{518,31},{549,25},{574,19},{593,431},},{{0,30},{30,43},{73,32},{105,22},{127,43},{170,59},{229,45},{274,31},{305,30},{335,42},{377,34},{411,25},{436,19},{455,28},{483,23},{506,18},{524,500},},{{0,9},{9,15},{24,14},{38,13},{51,14},{65,22},{87,21},{108,18},{126,13},{139,20},{159,18},{177,16},{193,11},{204,17},{221,15},{236,14},{250,774},},{{0,30},{30,44},{74,31},{105,20},{125,41},{166,58},{224,42},{266,28},{294,28},{322,39},{361,30},{391,22},{413,18},{431,26},{457,21},{478,16},{494,530},},{{0,15},{15,23},{38,20},{58,15},{73,22},{95,33},{128,28},{156,22},{178,18},{196,26},{222,23},{245,18},{263,13},{276,20},{296,18},{314,15},{329,695},},{{0,11},{11,17},{28,16},{44,13},{57,17},{74,26},{100,23},{123,19},{142,15},{157,22},{179,20},{199,17},{216,12},{228,18},{246,16},{262,14},{276,748},},{{0,448},{448,171},{619,20},{639,4},{643,178},{821,105},{926,18},{944,4},{948,23},{971,20},{991,7},{998,2},{1000,5},{1005,5},{1010,2},{1012,1},{1013,11},},{{0,332},{332,188},{520,29},{549,6},{555,186},{741,133},{874,29},{903,7},{910,30},{940,30},{970,11},{981,4},{985,6},{991,7},{998,4},{1002,2},{1004,20},},{{0,8},{8,13},{21,13},{34,11},{45,13},{58,20},{78,18},{96,16},{112,12},{124,17},{141,16},{157,13},{170,10},{180,14},{194,13},{207,12},{219,805},},{{0,239},{239,176},{415,42},{457,11},{468,163},{631,145},{776,44},{820,13},{833,39},{872,42},{914,19},{933,7},{940,11},{951,13},{964,7},{971,4},{975,49},},{{0,165},{165,145},{310,49},{359,16},{375,138},{513,139},{652,55},{707,20},{727,47},{774,54},{828,28},{856,12},{868,16},{884,20},{904,12},{916,7},{923,101},},{{0,3},{3,5},{8,5},{13,5},{18,5},{23,7},{30,7},{37,7},{44,4},{48,7},{55,7},{62,6},{68,4},{72,6},{78,6},{84,6},{90,934},},{{0,115},{115,122},{237,52},{289,22},{311,111},{422,125},{547,61},{608,27},{635,45},{680,57},{737,34},{771,17},{788,19},{807,25},{832,17},{849,10},{859,165},},{{0,107},{107,114},{221,51},{272,21},{293,106},{399,122},{521,61},{582,28},{610,46},{656,58},{714,35},{749,18},{767,20},{787,26},{813,18},{831,11},{842,182},},{{0,6},{6,10},{16,10},{26,9},{35,10},{45,15},{60,15},{75,14},{89,9},{98,14},{112,13},{125,12},{137,8},{145,12},{157,11},{168,10},{178,846},},{{0,72},{72,88},{160,50},{210,26},{236,84},{320,102},{422,60},{482,32},{514,41},{555,53},{608,36},{644,21},{665,20},{685,27},{712,20},{732,13},{745,279},},{{0,45},{45,63},{108,45},{153,30},{183,61},{244,83},{327,58},{385,36},{421,34},{455,47},{502,34},{536,23},{559,19},{578,27},{605,21},{626,15},{641,383},},{{0,1},{1,1},{2,7},{9,7},{16,1},{17,1},{18,8},{26,8},{34,6},{40,8},{48,7},{55,7},{62,6},{68,7},{75,7},{82,6},{88,936},},{{0,29},{29,44},{73,35},{108,24},{132,42},{174,62},{236,48},{284,34},{318,30},{348,43},{391,35},{426,26},{452,19},{471,29},{500,24},{524,19},{543,481},},{{0,20},{20,31},{51,25},{76,17},{93,30},{123,43},{166,34},{200,25},{225,22},{247,32},{279,26},{305,21},{326,16},{342,23},{365,20},{385,16},{401,623},},{{0,742},{742,103},{845,5},{850,1},{851,108},{959,38},{997,4},{1001,1},{1002,7},{1009,5},{1014,2},{1016,1},{1017,2},{1019,1},{1020,1},{1021,1},{1022,2},},{{0,42},{42,52},{94,27},{121,16},{137,49},{186,58},{244,36},{280,23},{303,27},{330,36},{366,26},{392,18},{410,17},{427,24},{451,19},{470,14},{484,540},},{{0,13},{13,20},{33,18},{51,15},{66,19},{85,29},{114,26},{140,21},{161,17},{178,25},{203,22},{225,18},{243,13},{256,19},{275,17},{292,15},{307,717},},{{0,501},{501,169},{670,19},{689,4},{693,155},{848,88},{936,16},{952,4},{956,19},{975,16},{991,6},{997,2},{999,5},{1004,4},{1008,2},{1010,1},{1011,13},},{{0,445},{445,136},{581,22},{603,6},{609,158},{767,98},{865,23},{888,7},{895,31},{926,28},{954,10},{964,4},{968,9},{977,9},{986,5},{991,2},{993,31},},{{0,285},{285,157},{442,37},{479,10},{489,161},{650,129},{779,39},{818,12},{830,40},{870,42},{912,18},{930,7},{937,12},{949,14},{963,8},{971,4},{975,49},},{{0,349},{349,179},{528,33},{561,8},{569,162},{731,121},{852,31},{883,9},{892,31},{923,30},{953,12},{965,5},{970,8},{978,9},{987,5},{992,2},{994,30},},{{0,199},{199,156},{355,47},{402,15},{417,146},{563,137},{700,50},{750,17},{767,44},{811,49},{860,24},{884,10},{894,15},{909,17},{926,10},{936,6},{942,82},},{{0,141},{141,134},{275,50},{325,18},{343,128},{471,135},{606,58},{664,22},{686,48},{734,57},{791,31},{822,14},{836,18},{854,23},{877,14},{891,8},{899,125},},{{0,243},{243,194},{437,56},{493,17},{510,139},{649,126},{775,45},{820,16},{836,33},{869,36},{905,18},{923,8},{931,10},{941,12},{953,7},{960,4},{964,60},},{{0,91},{91,106},{197,51},{248,23},{271,99},{370,117},{487,63},{550,30},{580,45},{625,59},{684,37},{721,20},{741,20},{761,27},{788,19},{807,12},{819,205},},{{0,107},{107,94},{201,41},{242,20},{262,92},{354,97},{451,52},{503,28},{531,42},{573,53},{626,34},{660,20},{680,21},{701,29},{730,21},{751,14},{765,259},},{{0,168},{168,171},{339,68},{407,25},{432,121},{553,123},{676,55},{731,24},{755,34},{789,41},{830,24},{854,12},{866,13},{879,16},{895,11},{906,6},{912,112},},{{0,67},{67,80},{147,44},{191,23},{214,76},{290,94},{384,57},{441,31},{472,41},{513,54},{567,37},{604,23},{627,21},{648,30},{678,22},{700,15},{715,309},},{{0,46},{46,63},{109,39},{148,23},{171,58},{229,78},{307,52},{359,32},{391,36},{427,49},{476,37},{513,24},{537,21},{558,30},{588,24},{612,17},{629,395},},{{0,848},{848,70},{918,2},{920,1},{921,75},{996,16},{1012,1},{1013,1},{1014,2},{1016,1},{1017,1},{1018,1},{1019,1},{1020,1},{1021,1},{1022,1},{1023,1},},{{0,36},{36,52},{88,35},{123,22},{145,48},{193,67},{260,48},{308,32},{340,32},{372,45},{417,35},{452,24},{476,20},{496,29},{525,23},{548,17},{565,459},},{{0,24},{24,37},{61,29},{90,20},{110,35},{145,51},{196,41},{237,29},{266,26},{292,38},{330,31},{361,24},{385,18},{403,27},{430,23},{453,18},{471,553},},{{0,85},{85,97},{182,48},{230,23},{253,91},{344,110},{454,61},{515,30},{545,45},{590,58},{648,37},{685,21},{706,21},{727,29},{756,20},{776,13},{789,235},},{{0,22},{22,33},{55,27},{82,20},{102,33},{135,48},{183,39},{222,30},{252,26},{278,37},{315,30},{345,23},{368,17},{385,25},{410,21},{431,17},{448,576},},{{0,1},{1,1},{2,54},{56,33},{89,1},{90,1},{91,49},{140,32},{172,49},{221,47},{268,35},{303,25},{328,30},{358,30},{388,24},{412,18},{430,594},},{{0,45},{45,64},{109,43},{152,25},{177,62},{239,81},{320,56},{376,35},{411,37},{448,51},{499,38},{537,26},{563,22},{585,31},{616,24},{640,18},{658,366},},{{0,247},{247,148},{395,38},{433,12},{445,154},{599,130},{729,42},{771,14},{785,44},{829,46},{875,21},{896,9},{905,15},{920,17},{937,9},{946,5},{951,73},},{{0,231},{231,136},{367,41},{408,15},{423,134},{557,119},{676,47},{723,19},{742,44},{786,49},{835,25},{860,12},{872,17},{889,20},{909,12},{921,7},{928,96},},};
static const uint8_t spec_lookup[2][2][256][4]={{{{1,13,0,0,},{39,13,0,0,},{7,13,0,0,},{25,13,0,0,},{22,13,0,0,},{22,13,0,0,},{28,13,0,0,},{22,13,0,0,},{22,60,0,0,},{22,60,0,0,},{22,60,0,0,},{28,60,0,0,},{28,60,0,0,},{28,60,13,0,},{34,60,13,0,},{31,16,13,0,},{31,16,13,0,},{40,0,0,0,},{43,0,0,0,},{46,0,0,0,},{49,0,0,0,},{52,0,0,0,},{14,0,0,0,},{17,0,0,0,},{36,0,0,0,},{36,0,0,0,},{36,0,0,0,},{38,0,0,0,},{0,0,0,0,},{57,0,0,0,},{38,13,0,0,},{22,60,0,0,},{0,0,0,0,},{8,0,0,0,},{9,0,0,0,},{11,0,0,0,},{47,0,0,0,},{14,0,0,0,},{14,0,0,0,},{17,0,0,0,},{36,0,0,0,},{36,0,0,0,},{36,0,0,0,},{38,0,0,0,},{59,0,0,0,},{59,0,0,0,},{38,13,0,0,},{22,60,0,0,},{22,60,0,0,},{26,0,0,0,},{46,0,0,0,},{29,0,0,0,},{30,0,0,0,},{32,0,0,0,},{33,0,0,0,},{35,0,0,0,},{36,0,0,0,},{36,0,0,0,},{36,0,0,0,},{38,0,0,0,},{0,13,0,0,},{59,13,0,0,},{23,13,0,0,},{22,60,0,0,},{46,60,0,0,},{46,0,0,0,},{45,0,0,0,},{47,0,0,0,},{48,0,0,0,},{50,0,0,0,},{50,0,0,0,},{18,0,0,0,},{54,0,0,0,},{54,0,0,0,},{54,0,0,0,},{38,0,0,0,},{59,13,0,0,},{59,13,0,0,},{59,13,0,0,},{22,60,0,0,},{0,60,0,0,},{62,0,0,0,},{63,0,0,0,},{3,0,0,0,},{33,0,0,0,},{2,0,0,0,},{2,0,0,0,},{61,0,0,0,},{20,0,0,0,},{20,0,0,0,},{20,13,0,0,},{21,13,0,0,},{59,13,0,0,},{59,13,0,0,},{39,13,0,0,},{28,60,0,0,},{28,60,0,0,},{63,0,0,0,},{63,0,0,0,},{3,0,0,0,},{33,0,0,0,},{2,0,0,0,},{2,0,0,0,},{61,0,0,0,},{38,0,0,0,},{38,0,0,0,},{38,13,0,0,},{21,13,0,0,},{59,13,0,0,},{59,13,0,0,},{39,13,0,0,},{28,60,0,0,},{28,60,0,0,},{6,0,0,0,},{6,0,0,0,},{6,0,0,0,},{2,0,0,0,},{18,0,0,0,},{61,0,0,0,},{20,0,0,0,},{21,0,0,0,},{21,0,0,0,},{21,13,0,0,},{59,13,0,0,},{39,13,0,0,},{39,13,0,0,},{7,13,0,0,},{34,60,13,0,},{34,60,13,0,},{34,60,13,0,},{34,60,13,0,},{34,60,13,0,},{34,60,13,0,},{34,60,13,0,},{34,60,13,0,},{34,60,13,0,},{34,60,13,0,},{34,60,13,0,},{34,60,13,0,},{34,60,13,0,},{34,60,13,0,},{34,60,13,0,},{34,60,13,0,},{34,60,13,0,},{34,60,13,0,},{51,0,0,0,},{51,0,0,0,},{51,0,0,0,},{53,0,0,0,},{54,0,0,0,},{20,0,0,0,},{38,0,0,0,},{38,0,0,0,},{57,0,0,0,},{39,13,0,0,},{39,13,0,0,},{39,13,0,0,},{7,13,0,0,},{24,13,0,0,},{34,60,13,0,},{4,60,0,0,},{4,60,0,0,},{4,60,0,0,},{4,60,0,0,},{4,60,0,0,},{4,60,0,0,},{4,60,0,0,},{4,60,0,0,},{4,60,0,0,},{4,60,0,0,},{4,60,0,0,},{4,60,0,0,},{4,60,0,0,},{4,60,0,0,},{4,60,0,0,},{4,60,0,0,},{4,60,0,0,},{4,0,0,0,},{4,0,0,0,},{4,0,0,0,},{4,0,0,0,},{56,0,0,0,},{38,0,0,0,},{57,0,0,0,},{57,13,0,0,},{59,13,0,0,},{7,13,0,0,},{7,13,0,0,},{7,13,0,0,},{42,13,0,0,},{42,13,0,0,},{34,60,13,0,},{0,60,13,0,},{0,60,13,0,},{0,60,13,0,},{0,60,13,0,},{0,60,13,0,},{0,60,13,0,},{0,60,13,0,},{0,60,13,0,},{0,60,13,0,},{0,60,13,0,},{0,60,13,0,},{0,60,13,0,},{0,60,13,0,},{0,60,13,0,},{0,60,13,0,},{0,60,13,0,},{0,60,13,0,},{5,0,0,0,},{4,0,0,0,},{4,0,0,0,},{5,0,0,0,},{21,0,0,0,},{21,0,0,0,},{59,13,0,0,},{7,13,0,0,},{7,13,0,0,},{7,13,0,0,},{7,13,0,0,},{25,13,0,0,},{25,13,0,0,},{25,13,0,0,},{34,60,13,0,},{4,13,0,0,},{4,13,0,0,},{4,13,0,0,},{4,13,0,0,},{5,13,0,0,},{23,13,0,0,},{23,13,0,0,},{39,13,0,0,},{7,13,0,0,},{7,13,0,0,},{7,13,0,0,},{42,13,0,0,},{25,13,0,0,},{25,13,0,0,},{22,13,0,0,},{31,60,13,0,},{31,60,13,0,},{39,60,0,0,},{39,60,0,0,},{39,60,0,0,},{39,60,0,0,},{7,60,0,0,},{7,60,0,0,},{42,60,0,0,},{0,60,0,0,},{25,60,0,0,},{22,60,0,0,},{22,60,0,0,},{22,60,0,0,},{28,60,0,0,},{34,60,0,0,},{31,16,13,0,},},{{55,0,13,0,},{55,0,13,0,},{55,0,13,0,},{55,0,13,0,},{55,0,13,0,},{55,0,13,0,},{55,0,13,0,},{55,0,13,0,},{55,0,13,0,},{55,0,13,0,},{55,0,13,0,},{55,0,13,0,},{55,0,13,0,},{55,0,13,0,},{55,0,13,0,},{55,0,13,0,},{55,0,13,0,},{55,0,0,0,},{40,0,0,0,},{8,0,0,0,},{9,0,0,0,},{49,0,0,0,},{49,0,0,0,},{52,0,0,0,},{17,0,0,0,},{17,0,0,0,},{17,0,0,0,},{4,13,0,0,},{0,13,0,0,},{20,13,0,0,},{17,0,0,0,},{60,13,60,13,},{40,0,0,13,},{40,0,0,0,},{8,0,0,0,},{43,0,0,0,},{27,0,0,0,},{49,0,0,0,},{49,0,0,0,},{14,0,0,0,},{17,0,0,0,},{17,0,0,0,},{17,0,0,0,},{36,0,0,0,},{42,13,0,0,},{42,13,0,0,},{17,0,0,0,},{57,60,13,0,},{57,0,13,0,},{40,0,0,0,},{8,0,0,0,},{26,0,0,0,},{27,0,0,0,},{49,0,0,0,},{12,0,0,0,},{14,0,0,0,},{17,0,0,0,},{17,0,0,0,},{17,0,0,0,},{36,0,0,0,},{0,0,13,0,},{38,0,13,0,},{36,13,0,0,},{1,60,0,0,},{8,60,0,0,},{8,0,0,0,},{43,0,0,0,},{9,0,0,0,},{11,0,0,0,},{49,0,0,0,},{12,0,0,0,},{14,0,0,0,},{14,0,13,0,},{33,0,13,0,},{50,0,13,0,},{50,0,0,0,},{50,0,13,0,},{61,0,13,0,},{36,13,0,0,},{39,60,0,0,},{8,60,0,0,},{8,0,0,0,},{43,0,0,0,},{46,0,0,0,},{49,0,0,0,},{52,0,0,0,},{30,0,0,0,},{14,0,0,0,},{14,0,13,0,},{33,0,13,0,},{50,0,13,0,},{50,0,13,0,},{50,13,13,0,},{50,13,0,0,},{18,13,13,0,},{25,60,13,0,},{8,60,13,13,},{8,0,0,13,},{43,0,0,13,},{46,0,0,13,},{49,0,0,13,},{52,0,0,0,},{30,0,0,0,},{14,0,0,0,},{14,0,0,0,},{18,0,60,0,},{5,0,0,13,},{5,0,0,13,},{5,0,0,13,},{61,13,0,13,},{18,13,13,0,},{23,13,60,0,},{43,13,0,13,},{43,0,0,13,},{43,0,0,13,},{9,0,0,13,},{49,0,0,13,},{52,0,0,0,},{3,0,0,0,},{14,0,0,0,},{14,0,0,0,},{50,0,0,0,},{50,13,13,0,},{50,13,13,0,},{50,13,13,0,},{61,0,0,0,},{17,13,13,0,},{24,60,13,0,},{43,60,13,0,},{43,60,13,0,},{43,60,13,0,},{43,60,13,0,},{43,60,13,0,},{43,60,13,0,},{43,60,13,0,},{43,60,13,0,},{43,60,13,0,},{43,60,13,0,},{43,60,13,0,},{43,60,13,0,},{43,60,13,0,},{43,60,13,0,},{43,60,13,0,},{43,60,13,0,},{43,60,13,0,},{43,0,0,0,},{43,0,19,0,},{9,0,0,0,},{11,0,0,0,},{52,0,0,0,},{52,0,0,0,},{14,0,0,0,},{14,0,0,0,},{17,0,0,0,},{61,13,0,0,},{61,13,0,0,},{61,13,0,0,},{54,0,0,0,},{17,0,13,13,},{39,13,13,0,},{45,13,13,0,},{45,13,13,0,},{45,13,13,0,},{45,13,13,0,},{45,13,13,0,},{45,13,13,0,},{45,13,13,0,},{45,13,13,0,},{45,13,13,0,},{45,13,13,0,},{45,13,13,0,},{45,13,13,0,},{45,13,13,0,},{45,13,13,0,},{45,13,13,0,},{45,13,13,0,},{45,13,13,0,},{45,0,13,0,},{44,0,13,0,},{27,0,0,0,},{29,0,0,0,},{52,0,0,0,},{48,0,0,0,},{52,0,0,0,},{52,0,0,0,},{17,0,0,0,},{17,0,0,0,},{17,0,19,0,},{17,0,13,0,},{2,0,13,0,},{17,0,13,0,},{7,13,0,0,},{27,0,0,13,},{27,0,0,13,},{27,0,0,13,},{27,0,0,13,},{27,0,0,13,},{27,0,0,13,},{27,0,0,13,},{27,0,0,13,},{27,0,0,13,},{27,0,0,13,},{27,0,0,13,},{27,0,0,13,},{27,0,0,13,},{27,0,0,13,},{27,0,0,13,},{27,0,0,13,},{27,0,0,13,},{27,0,0,13,},{9,0,0,13,},{27,0,0,13,},{27,0,0,13,},{12,0,0,13,},{52,0,0,13,},{14,0,0,13,},{14,0,0,13,},{58,0,0,13,},{41,0,0,13,},{41,0,0,13,},{41,0,0,13,},{6,0,0,13,},{17,60,0,13,},{37,0,19,13,},{9,0,0,13,},{9,16,0,13,},{9,0,0,13,},{27,0,0,13,},{11,0,0,13,},{49,0,0,0,},{12,0,0,0,},{52,0,0,0,},{14,0,0,0,},{14,0,0,0,},{14,0,0,0,},{50,0,0,0,},{0,0,0,13,},{53,0,0,13,},{17,0,0,13,},{28,0,13,0,},{52,0,13,0,},{52,0,13,0,},{49,0,13,0,},{52,0,0,0,},{12,0,0,0,},{52,0,0,0,},{30,0,0,0,},{14,0,0,0,},{14,0,0,0,},{17,0,0,0,},{2,0,0,0,},{2,0,0,0,},{2,0,0,0,},{38,0,0,0,},{38,0,0,0,},{34,0,0,0,},},},{{{31,16,60,13,},{34,16,13,0,},{34,16,13,0,},{31,16,13,0,},{31,16,13,0,},{31,16,13,0,},{31,16,13,0,},{19,16,60,0,},{19,16,60,0,},{19,16,60,0,},{19,16,60,0,},{19,16,60,0,},{19,16,60,0,},{19,16,60,0,},{31,16,60,13,},{19,37,16,60,},{44,0,0,60,},{44,0,0,0,},{62,0,0,0,},{30,0,0,0,},{32,0,0,0,},{58,0,0,0,},{35,0,0,0,},{36,0,0,0,},{36,0,0,0,},{38,13,0,0,},{0,13,0,0,},{59,13,0,0,},{7,13,0,0,},{7,13,0,0,},{39,13,0,0,},{34,60,13,0,},{34,0,13,0,},{45,0,0,0,},{47,0,0,0,},{48,0,0,0,},{33,0,0,0,},{35,0,0,0,},{35,0,0,0,},{36,0,0,0,},{38,13,0,0,},{38,13,0,0,},{38,13,0,0,},{59,13,0,0,},{7,13,0,0,},{7,13,0,0,},{39,13,0,0,},{34,60,13,0,},{34,0,13,0,},{62,0,0,0,},{30,0,0,0,},{15,0,0,0,},{50,0,0,0,},{53,0,0,0,},{53,0,0,0,},{54,13,0,0,},{21,13,0,0,},{21,13,0,0,},{21,13,0,0,},{59,13,0,0,},{7,13,0,0,},{7,13,0,0,},{7,13,0,0,},{34,60,13,0,},{30,0,13,0,},{30,0,0,0,},{48,0,0,0,},{33,0,0,0,},{58,0,0,0,},{18,0,0,0,},{18,0,0,0,},{56,13,0,0,},{23,13,0,0,},{23,13,0,0,},{23,13,0,0,},{59,13,0,0,},{7,13,0,0,},{7,13,0,0,},{24,13,0,0,},{34,60,13,0,},{34,0,13,0,},{6,0,0,0,},{6,0,0,0,},{58,0,0,0,},{53,0,0,0,},{54,0,0,0,},{54,0,0,0,},{21,13,0,0,},{59,13,0,0,},{59,13,0,0,},{59,13,0,0,},{39,13,0,0,},{7,13,0,0,},{7,13,0,0,},{42,60,0,0,},{34,16,13,0,},{6,0,13,0,},{6,0,0,0,},{33,0,0,0,},{58,0,0,0,},{53,0,0,0,},{54,0,0,0,},{61,0,0,0,},{21,13,0,0,},{59,13,0,0,},{59,13,0,0,},{59,13,0,0,},{39,13,0,0,},{7,13,0,0,},{7,13,0,0,},{42,60,0,0,},{34,16,13,0,},{34,0,13,0,},{51,0,0,0,},{51,0,0,0,},{53,0,0,0,},{54,0,0,0,},{56,13,0,0,},{56,13,0,0,},{57,13,0,0,},{39,13,0,0,},{39,13,0,0,},{39,13,0,0,},{7,13,0,0,},{42,13,0,0,},{42,13,0,0,},{25,60,0,0,},{31,16,13,0,},{31,0,13,0,},{31,0,13,0,},{31,0,13,0,},{31,0,13,0,},{31,0,13,0,},{31,0,13,0,},{31,0,13,0,},{31,0,13,0,},{31,0,13,0,},{31,0,13,0,},{31,0,13,0,},{31,0,13,0,},{31,0,13,0,},{31,0,13,0,},{31,0,13,0,},{31,0,13,0,},{31,0,13,0,},{4,0,0,0,},{4,0,0,0,},{4,0,0,0,},{5,13,0,0,},{23,13,0,0,},{23,13,0,0,},{39,13,0,0,},{7,13,0,0,},{7,13,0,0,},{7,13,0,0,},{42,13,0,0,},{25,13,0,0,},{25,13,0,0,},{22,60,0,0,},{31,16,60,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{5,13,0,0,},{5,13,0,0,},{5,13,0,0,},{5,13,0,0,},{57,13,0,0,},{57,13,0,0,},{39,13,0,0,},{24,13,0,0,},{24,13,0,0,},{24,13,0,0,},{42,13,0,0,},{22,13,0,0,},{22,60,0,0,},{28,60,13,0,},{31,16,60,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{41,13,0,0,},{41,13,0,0,},{41,13,0,0,},{41,13,0,0,},{39,13,0,0,},{39,13,0,0,},{7,13,0,0,},{42,13,0,0,},{42,13,0,0,},{42,13,0,0,},{25,13,0,0,},{28,13,0,0,},{28,60,0,0,},{28,60,13,0,},{31,16,60,13,},{31,13,0,0,},{41,13,0,0,},{41,13,0,0,},{41,13,0,0,},{41,13,0,0,},{39,13,0,0,},{39,13,0,0,},{24,13,0,0,},{25,60,0,0,},{25,60,0,0,},{25,60,0,0,},{22,60,0,0,},{28,60,0,0,},{28,60,0,0,},{34,60,13,0,},{31,16,60,13,},{31,60,13,13,},{10,60,13,0,},{10,60,13,0,},{10,60,13,0,},{10,60,13,0,},{10,60,13,0,},{10,60,13,0,},{28,60,13,0,},{34,60,13,0,},{34,60,13,0,},{34,16,13,0,},{34,16,13,0,},{34,16,60,0,},{34,16,60,0,},{31,16,60,0,},{19,37,16,13,},},{{8,0,16,0,},{8,0,16,0,},{8,0,16,0,},{8,0,16,0,},{8,0,16,0,},{8,0,16,0,},{8,0,16,0,},{8,0,16,0,},{8,0,16,0,},{8,0,16,0,},{8,0,16,0,},{8,0,16,0,},{8,0,16,0,},{8,0,16,0,},{8,0,16,0,},{8,0,16,0,},{8,0,16,0,},{8,0,0,0,},{9,0,0,0,},{11,0,0,0,},{47,0,0,0,},{32,0,0,0,},{50,0,0,0,},{18,0,0,0,},{18,0,0,0,},{20,0,0,0,},{21,0,0,0,},{21,0,0,0,},{21,13,0,0,},{39,13,0,0,},{59,13,0,0,},{34,16,60,0,},{26,0,0,0,},{26,0,0,0,},{27,0,0,0,},{29,0,0,0,},{30,0,0,0,},{33,0,0,0,},{50,0,0,0,},{18,0,0,0,},{18,0,0,0,},{20,0,0,0,},{57,0,0,0,},{57,13,0,0,},{57,13,0,0,},{59,13,0,0,},{59,13,0,0,},{34,16,60,0,},{27,0,0,0,},{27,0,0,0,},{11,0,0,0,},{12,0,0,0,},{48,0,0,0,},{50,0,0,0,},{58,0,0,0,},{61,0,0,0,},{61,0,0,0,},{56,0,0,0,},{57,13,0,0,},{57,13,0,0,},{57,13,0,0,},{59,13,0,0,},{39,13,0,0,},{34,16,60,0,},{45,0,0,0,},{45,0,0,0,},{12,0,0,0,},{30,0,0,0,},{32,0,0,0,},{2,0,0,0,},{2,0,0,0,},{61,0,0,0,},{38,0,0,0,},{38,0,0,0,},{38,13,0,0,},{57,13,0,0,},{0,13,0,0,},{59,13,0,0,},{39,13,0,0,},{34,16,60,0,},{63,0,0,0,},{63,0,0,0,},{3,0,0,0,},{32,0,0,0,},{58,0,0,0,},{18,0,0,0,},{18,0,0,0,},{20,0,0,0,},{21,0,0,0,},{21,0,0,0,},{21,13,0,0,},{59,13,0,0,},{39,13,0,0,},{39,13,0,0,},{7,13,13,0,},{31,16,60,0,},{31,0,0,0,},{3,0,0,0,},{3,0,0,0,},{33,0,0,0,},{58,0,0,0,},{18,0,0,0,},{18,0,0,0,},{20,0,0,0,},{21,0,0,0,},{21,0,0,0,},{21,13,0,0,},{59,13,0,0,},{7,13,0,0,},{7,13,0,0,},{7,13,13,0,},{31,16,60,0,},{6,0,0,0,},{6,0,0,0,},{51,0,0,0,},{51,0,0,0,},{53,0,0,0,},{54,0,0,0,},{54,0,0,0,},{38,0,0,0,},{57,13,0,0,},{57,13,0,0,},{57,13,0,0,},{39,13,0,0,},{7,13,0,0,},{7,13,0,0,},{42,60,13,0,},{31,16,60,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{51,0,0,0,},{53,0,0,0,},{53,0,0,0,},{54,0,0,0,},{56,0,0,0,},{56,0,0,0,},{57,13,0,0,},{59,13,0,0,},{59,13,0,0,},{59,13,0,0,},{7,13,0,0,},{24,13,0,0,},{24,13,0,0,},{25,60,13,0,},{31,16,60,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{4,0,0,0,},{4,0,0,0,},{4,0,0,0,},{54,0,0,0,},{21,13,0,0,},{21,0,0,0,},{57,13,0,0,},{39,13,0,0,},{39,13,0,0,},{39,13,0,0,},{7,13,0,0,},{42,13,13,0,},{42,13,13,0,},{22,60,13,0,},{31,16,60,0,},{31,16,0,0,},{31,16,0,0,},{31,16,0,0,},{31,16,0,0,},{31,16,0,0,},{31,16,0,0,},{31,16,0,0,},{31,16,0,0,},{31,16,0,0,},{31,16,0,0,},{31,16,0,0,},{31,16,0,0,},{31,16,0,0,},{31,16,0,0,},{31,16,0,0,},{31,16,0,0,},{31,16,0,0,},{5,0,0,0,},{5,0,0,0,},{5,0,0,0,},{5,13,0,0,},{23,13,0,0,},{23,13,0,0,},{59,13,0,0,},{7,13,0,0,},{7,13,0,0,},{7,13,13,0,},{42,13,13,0,},{22,60,13,0,},{22,60,13,0,},{28,60,13,0,},{31,16,60,0,},{31,13,0,0,},{4,13,0,0,},{4,13,0,0,},{4,13,0,0,},{5,13,0,0,},{23,13,0,0,},{23,13,0,0,},{39,13,13,0,},{24,60,13,0,},{24,60,13,0,},{24,60,13,0,},{25,60,13,0,},{28,60,13,0,},{28,60,13,0,},{34,16,13,0,},{31,16,60,0,},{31,16,13,0,},{10,16,13,0,},{10,16,13,0,},{10,16,13,0,},{10,16,13,0,},{10,16,60,0,},{10,16,60,0,},{28,16,60,0,},{34,16,60,0,},{34,16,60,0,},{34,16,60,0,},{31,16,60,0,},{31,16,60,0,},{31,16,60,0,},{31,16,60,0,},{19,37,60,0,},},},};
static const float ltpf_cnum[5][4][12]={{{0.602361798,0.419760913,-0.0188342445,0,},{0.599476874,0.419760913,-0.0159492828,0,},{0.596776485,0.419760913,-0.0132488906,0,},{0.594241023,0.419760913,-0.0107134366,0,},},{{0.602361798,0.419760913,-0.0188342445,0,},{0.599476874,0.419760913,-0.0159492828,0,},{0.596776485,0.419760913,-0.0132488906,0,},{0.594241023,0.419760913,-0.0107134366,0,},},{{0.398969561,0.514250875,0.100438297,-0.0127889393,-0.00157228007,0,},{0.394863486,0.512381911,0.10431949,-0.0109199993,-0.00134740828,0,},{0.390984446,0.510605335,0.107983254,-0.00914343074,-0.00113212457,0,},{0.387309402,0.508912206,0.111451738,-0.00745028723,-0.000925551401,0,},},{{0.29823795,0.46528092,0.21059975,0.0376678035,-0.0101569612,-0.00253588101,-0.000318294624,0,},{0.294383407,0.461929411,0.212946579,0.0406617485,-0.00869327225,-0.00217830716,-0.000274288817,0,},{0.290743917,0.458746195,0.215145692,0.0435010493,-0.00729549536,-0.00183439569,-0.000231692014,0,},{0.287297577,0.455714881,0.217212692,0.0462008901,-0.00595746376,-0.00150293426,-0.000190385195,0,},},{{0.198136374,0.352449477,0.251369536,0.142414629,0.0570473112,0.00929336622,-0.00722602522,-0.0031726798,-0.00112183602,-0.00029029572,-4.27081577e-05,0,},{0.195070937,0.348466039,0.250998855,0.144116744,0.059289474,0.0110892383,-0.00619290816,-0.00272670551,-0.0009667126,-0.000250810088,-3.69993868e-05,0,},{0.192181006,0.344694555,0.250622004,0.145710245,0.0614113212,0.0127994139,-0.00520372111,-0.00229732459,-0.000816560816,-0.000212385581,-3.14127137e-05,0,},{0.189448535,0.341113925,0.250240684,0.14720656,0.0634247735,0.0144320345,-0.00425444916,-0.00188308151,-0.000670961919,-0.000174936329,-2.5938647e-05,0,},},};
static const float ltpf_cden[5][4][12]={{{0.209880456,0.583527565,0.209880456,0,},{0.106999189,0.550074995,0.335690618,0.00669885846,},{0.0396711491,0.459220916,0.459220916,0.0396711491,},{0.00669885846,0.335690618,0.550074995,0.106999189,},},{{0.209880456,0.583527565,0.209880456,0,},{0.106999189,0.550074995,0.335690618,0.00669885846,},{0.0396711491,0.459220916,0.459220916,0.0396711491,},{0.00669885846,0.335690618,0.550074995,0.106999189,},},{{0.0632223189,0.250730962,0.371390939,0.250730962,0.0632223189,0,},{0.0345927216,0.198651567,0.362641186,0.29867506,0.101309285,0.00426354352,},{0.0153574673,0.147434488,0.337425947,0.337425947,0.147434488,0.0153574673,},{0.00426354352,0.101309285,0.29867506,0.362641186,0.198651567,0.0345927216,},},{{0.0290040188,0.112985745,0.221202403,0.272390962,0.221202403,0.112985745,0.0290040188,0,},{0.0170315336,0.0872250348,0.196140781,0.268923789,0.242499903,0.140577331,0.0447487719,0.00312703033,},{0.00856367406,0.0642622262,0.168767676,0.258744597,0.258744597,0.168767676,0.0642622262,0.00856367406,},{0.00312703033,0.0447487719,0.140577331,0.242499903,0.268923789,0.196140781,0.0872250348,0.0170315336,},},{{0.0108235935,0.0360896923,0.0767640173,0.124153055,0.162759647,0.17767714,0.162759647,0.124153055,0.0767640173,0.0360896923,0.0108235935,0,},{0.00704140496,0.028197024,0.0654704496,0.1124648,0.1548419,0.176712245,0.169150725,0.135290161,0.0885142535,0.0449935384,0.0155761372,0.00203972193,},{0.00414699828,0.0213575736,0.0548273548,0.100497141,0.145606041,0.17384398,0.17384398,0.145606041,0.100497141,0.0548273548,0.0213575736,0.00414699828,},{0.00203972193,0.0155761372,0.0449935384,0.0885142535,0.135290161,0.169150725,0.176712245,0.1548419,0.1124648,0.0654704496,0.028197024,0.00704140496,},},};
}
