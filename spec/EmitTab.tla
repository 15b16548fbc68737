---------------------------- MODULE EmitTab ----------------------------
(* Generated by tools/mkemit.py from the published formulas; 1e6 * ln.   *)
(* The tables are indexed through the functions of Emit.tla.             *)
EXTENDS Integers
\* synchrotron G(2^(k/2)), k = -40..8
SynT ==
  <<-4028626, -3913127, -3797634, -3682150, -3566676, -3451215, -3335770, -3220347, -3104950, -2989586, -2874263, -2758994, -2643790, -2528671, -2413656, -2298775, -2184062, -2069560, -1955326, -1841429, -1727959, -1615029, -1502783, -1391403, -1281124, -1172246, -1065152, -960342, -858461, -760353, -667128, -580256, -501697, -434094, -381028, -347395, -339933, -367976, -444512, -587692, -822959, -1186068, -1727358, -2517821, -3657697, -5288676, -7611167, -10908736, -15582662>>

\* black body, isotropic: w = 2^j (j = -20,-18..8), E = 4 w 2^-i gamma (i = -3..12)
IcT ==
  <<<<-5896381, -2692854, -1467814, -1163283, -1270980, -1574646, -1990980, -2485404, -3038095, -3634212, -4261894, -4911860, -5577125, -6252621, -6934796, -7621236>>,
     <<-5897101, -2693030, -1467858, -1163295, -1270984, -1574648, -1990980, -2485404, -3038095, -3634212, -4261894, -4911860, -5577125, -6252621, -6934796, -7621236>>,
     <<-5899984, -2693735, -1468035, -1163344, -1270999, -1574653, -1990982, -2485405, -3038095, -3634212, -4261894, -4911860, -5577125, -6252621, -6934796, -7621236>>,
     <<-5911528, -2696557, -1468742, -1163539, -1271061, -1574675, -1990990, -2485407, -3038096, -3634213, -4261894, -4911860, -5577125, -6252621, -6934796, -7621236>>,
     <<-5958030, -2707882, -1471573, -1164319, -1271307, -1574761, -1991021, -2485418, -3038100, -3634214, -4261894, -4911860, -5577125, -6252621, -6934796, -7621236>>,
     <<-6149313, -2753748, -1482948, -1167440, -1272292, -1575103, -1991144, -2485462, -3038115, -3634219, -4261896, -4911861, -5577125, -6252621, -6934796, -7621236>>,
     <<-7010901, -2946918, -1529257, -1179946, -1276218, -1576471, -1991637, -2485638, -3038177, -3634240, -4261903, -4911863, -5577126, -6252621, -6934796, -7621236>>,
     <<-13572579, -3930124, -1729626, -1230379, -1291722, -1581869, -1993587, -2486337, -3038421, -3634324, -4261931, -4911872, -5577129, -6252622, -6934796, -7621236>>,
     <<-777777775, -777777775, -3097112, -1443542, -1350010, -1602178, -2001053, -2489047, -3039379, -3634653, -4262041, -4911908, -5577140, -6252626, -6934798, -7621237>>,
     <<-777777775, -777777775, -777777775, -777777775, -1517890, -1655880, -2024704, -2498461, -3042867, -3635885, -4262461, -4912047, -5577185, -6252640, -6934802, -7621238>>,
     <<-777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -1942770, -2505220, -3050485, -3639367, -4263793, -4912517, -5577343, -6252691, -6934818, -7621243>>,
     <<-777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -2896815, -3622589, -4262747, -4912934, -5577623, -6252810, -6934861, -7621258>>,
     <<-777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -4076536, -4883912, -5572319, -6251806, -6934679, -7621229>>,
     <<-777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -5370141, -6217018, -6927491, -7619629>>,
     <<-777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -6718043, -7582382>>>>

\* black body, isotropic: E = (1 - 2^-s) gamma (s = 1..4)
IcTop ==
  <<<<-777777775, -777777775, -777777775, -777777775>>,
     <<-777777775, -777777775, -777777775, -777777775>>,
     <<-777777775, -777777775, -777777775, -777777775>>,
     <<-777777775, -777777775, -777777775, -777777775>>,
     <<-777777775, -777777775, -777777775, -777777775>>,
     <<-777777775, -777777775, -777777775, -777777775>>,
     <<-60408122, -777777775, -777777775, -777777775>>,
     <<-13572579, -44571027, -777777775, -777777775>>,
     <<-3097112, -10000049, -25152397, -56399774>>,
     <<-1517890, -2458814, -5569228, -12785879>>,
     <<-1942770, -1520126, -1702148, -2936105>>,
     <<-2896815, -2139035, -1617842, -1418069>>,
     <<-4076536, -3212091, -2498971, -1919963>>,
     <<-5370141, -4463378, -3691112, -2996225>>,
     <<-6718043, -5793478, -5001498, -4268989>>>>

\* black body at 60 degrees
Ic60 ==
  <<<<-26275256, -11683267, -5100500, -2500224, -1779044, -1824628, -2142729, -2576104, -3086621, -3656039, -4268964, -4911934, -5574536, -6249522, -6932086, -7619163>>,
     <<-26278092, -11683952, -5100659, -2500249, -1779051, -1824630, -2142729, -2576104, -3086621, -3656039, -4268964, -4911934, -5574536, -6249522, -6932086, -7619163>>,
     <<-26289442, -11686692, -5101295, -2500387, -1779081, -1824637, -2142732, -2576105, -3086621, -3656039, -4268964, -4911934, -5574536, -6249522, -6932086, -7619163>>,
     <<-26334927, -11697663, -5101846, -2500943, -1779201, -1824668, -2142742, -2576106, -3086622, -3656040, -4268964, -4911934, -5574536, -6249522, -6932086, -7619163>>,
     <<-26518207, -11741706, -5114056, -2503167, -1779680, -1824791, -2142782, -2576110, -3086627, -3656041, -4268965, -4911934, -5574536, -6249522, -6932086, -7619163>>,
     <<-27273500, -11920495, -5155200, -2512093, -1781598, -1824586, -2142944, -2576126, -3086647, -3656048, -4268966, -4911935, -5574536, -6249522, -6932086, -7619163>>,
     <<-30699669, -12680327, -5324694, -2546939, -1789297, -1827250, -2143560, -2576657, -3086722, -3656074, -4268973, -4911938, -5574537, -6249523, -6932087, -7619163>>,
     <<-57407670, -16673719, -6092941, -2701152, -1820537, -1835076, -2146152, -2577466, -3086893, -3656179, -4268998, -4911948, -5574540, -6249523, -6932087, -7619163>>,
     <<-777777775, -777777775, -12129809, -3493846, -1954197, -1865101, -2156070, -2581143, -3088289, -3656592, -4269162, -4911984, -5574552, -6249527, -6932088, -7619164>>,
     <<-777777775, -777777775, -777777775, -777777775, -2895816, -1975509, -2189569, -2593967, -3092931, -3658159, -4269668, -4912146, -5574600, -6249539, -6932092, -7619165>>,
     <<-777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -2171270, -2613169, -3104996, -3663019, -4271331, -4912675, -5574763, -6249594, -6932105, -7619171>>,
     <<-777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -2964064, -3651710, -4271767, -4913416, -5575083, -6249712, -6932142, -7619181>>,
     <<-777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -4090723, -4885785, -5570005, -6248702, -6931944, -7619143>>,
     <<-777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -5368906, -6213968, -6924685, -7617499>>,
     <<-777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -6715097, -7580094>>>>

\* black body at 90 degrees
Ic90 ==
  <<<<-10990348, -4407405, -1807071, -1085899, -1131481, -1449582, -1882957, -2393473, -2962892, -3575817, -4218787, -4881389, -5556375, -6238939, -6926016, -7615734>>,
     <<-10991718, -4407724, -1807148, -1085914, -1131485, -1449583, -1882957, -2393474, -2962892, -3575817, -4218787, -4881389, -5556375, -6238939, -6926016, -7615734>>,
     <<-10997200, -4408998, -1807425, -1085974, -1131501, -1449588, -1882958, -2393474, -2962892, -3575817, -4218787, -4881389, -5556375, -6238939, -6926016, -7615734>>,
     <<-11019168, -4414097, -1808537, -1086213, -1131562, -1449608, -1882960, -2393477, -2962893, -3575817, -4218787, -4881389, -5556375, -6238939, -6926016, -7615734>>,
     <<-11107146, -4434570, -1812319, -1087172, -1131654, -1449689, -1882968, -2393487, -2962896, -3575818, -4218787, -4881389, -5556375, -6238939, -6926016, -7615734>>,
     <<-11472456, -4517664, -1830920, -1089725, -1132793, -1450012, -1883357, -2393526, -2962909, -3575821, -4218789, -4881389, -5556375, -6238939, -6926016, -7615734>>,
     <<-13127135, -4870604, -1904583, -1106482, -1136719, -1451300, -1883816, -2393632, -2962962, -3575834, -4218794, -4881391, -5556376, -6238939, -6926016, -7615734>>,
     <<-26039121, -6725210, -2235407, -1170261, -1152257, -1456267, -1885630, -2394315, -2963170, -3575885, -4218814, -4881397, -5556377, -6238940, -6926016, -7615734>>,
     <<-777777775, -777777775, -4834080, -1472637, -1211495, -1475257, -1892307, -2396584, -2963924, -3576179, -4218880, -4881421, -5556384, -6238942, -6926017, -7615734>>,
     <<-777777775, -777777775, -777777775, -777777775, -1447423, -1521141, -1913669, -2405016, -2966897, -3577144, -4219196, -4881504, -5556414, -6238950, -6926019, -7615734>>,
     <<-777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -1809817, -2406856, -2972247, -3579491, -4220052, -4881794, -5556502, -6238976, -6926028, -7615736>>,
     <<-777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -2808068, -3558561, -4217112, -4881453, -5556497, -6238993, -6926037, -7615740>>,
     <<-777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -4024095, -4849466, -5550052, -6237588, -6925718, -7615666>>,
     <<-777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -5343731, -6201180, -6917977, -7613886>>,
     <<-777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -6706420, -7575898>>>>

\* black body at 120 degrees
Ic120 ==
  <<<<-6079992, -2160778, -840124, -655359, -893610, -1287235, -1768041, -2314946, -2911628, -3543564, -4199063, -4869613, -5549494, -6234982, -6923775, -7614479>>,
     <<-6080869, -2160975, -840166, -655352, -893613, -1287236, -1768041, -2314946, -2911628, -3543564, -4199063, -4869613, -5549494, -6234982, -6923775, -7614479>>,
     <<-6084398, -2161765, -840335, -655322, -893625, -1287240, -1768042, -2314946, -2911628, -3543564, -4199063, -4869613, -5549494, -6234982, -6923775, -7614479>>,
     <<-6098524, -2163727, -841008, -655201, -893672, -1287256, -1768045, -2314948, -2911629, -3543564, -4199063, -4869613, -5549494, -6234982, -6923775, -7614479>>,
     <<-6155444, -2177626, -843706, -657230, -893861, -1287323, -1768055, -2314956, -2911631, -3543565, -4199063, -4869613, -5549494, -6234982, -6923775, -7614479>>,
     <<-6389976, -2229136, -854551, -659672, -893843, -1287588, -1768098, -2314988, -2911641, -3543567, -4199064, -4869613, -5549494, -6234982, -6923775, -7614479>>,
     <<-7453627, -2447130, -898866, -669789, -897610, -1288642, -1768618, -2315111, -2911682, -3543578, -4199068, -4869614, -5549494, -6234983, -6923775, -7614479>>,
     <<-15784081, -3588837, -1093813, -710039, -909296, -1292774, -1770083, -2315608, -2911842, -3543617, -4199083, -4869618, -5549495, -6234983, -6923775, -7614479>>,
     <<-777777775, -777777775, -2570494, -877140, -950037, -1307840, -1775530, -2317434, -2912439, -3543833, -4199137, -4869643, -5549500, -6234984, -6923775, -7614479>>,
     <<-777777775, -777777775, -777777775, -777777775, -1004704, -1336213, -1791236, -2323668, -2914542, -3544528, -4199344, -4869704, -5549517, -6234990, -6923777, -7614480>>,
     <<-777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -1663157, -2317378, -2916849, -3545841, -4199876, -4869884, -5549577, -6235005, -6923783, -7614481>>,
     <<-777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -2742149, -3520646, -4195561, -4869115, -5549445, -6234987, -6923781, -7614482>>,
     <<-777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -3997414, -4835365, -5542473, -6233428, -6923418, -7614395>>,
     <<-777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -5334046, -6196373, -6915493, -7612564>>,
     <<-777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -6703181, -7574359>>>>

\* one photon energy: w = gamma eps = 2^j
IcM ==
  <<<<-777777775, -777777775, -777777775, -777777775, 204906, -146524, -555318, -1038298, -1593702, -2201415, -2843143, -3505981, -4181561, -4864673, -5552160, -6242149>>,
     <<-777777775, -777777775, -777777775, -777777775, 204902, -146525, -555319, -1038298, -1593702, -2201415, -2843143, -3505981, -4181561, -4864673, -5552160, -6242149>>,
     <<-777777775, -777777775, -777777775, -777777775, 204888, -146530, -555321, -1038298, -1593702, -2201415, -2843143, -3505981, -4181561, -4864673, -5552160, -6242149>>,
     <<-777777775, -777777775, -777777775, -777777775, 204830, -146551, -555329, -1038301, -1593703, -2201416, -2843143, -3505981, -4181561, -4864673, -5552160, -6242149>>,
     <<-777777775, -777777775, -777777775, -777777775, 204600, -146632, -555362, -1038313, -1593707, -2201417, -2843143, -3505981, -4181561, -4864673, -5552160, -6242149>>,
     <<-777777775, -777777775, -777777775, -777777775, 203678, -146959, -555495, -1038358, -1593721, -2201421, -2843144, -3505981, -4181561, -4864673, -5552160, -6242149>>,
     <<-777777775, -777777775, -777777775, -777777775, 199988, -148261, -556022, -1038538, -1593778, -2201438, -2843150, -3505983, -4181562, -4864673, -5552160, -6242149>>,
     <<-777777775, -777777775, -777777775, -777777775, 185186, -153359, -558110, -1039254, -1594005, -2201508, -2843170, -3505989, -4181564, -4864674, -5552160, -6242149>>,
     <<-777777775, -777777775, -777777775, -777777775, 122688, -171890, -566099, -1042037, -1594892, -2201779, -2843251, -3506013, -4181570, -4864676, -5552161, -6242150>>,
     <<-777777775, -777777775, -777777775, -777777775, -777777775, -207072, -591097, -1051754, -1598106, -2202782, -2843554, -3506102, -4181596, -4864683, -5552163, -6242150>>,
     <<-777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -479080, -1059169, -1604751, -2205366, -2844420, -3506375, -4181679, -4864708, -5552170, -6242152>>,
     <<-777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -1445525, -2185398, -2841554, -3506001, -4181656, -4864718, -5552176, -6242155>>,
     <<-777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -2649252, -3473931, -4175137, -4863279, -5551846, -6242078>>,
     <<-777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -3968612, -4826743, -5544058, -6240282>>,
     <<-777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -5332333, -6202233>>>>

\* black body: energy-loss rate over the Thomson rate
KnT ==
  <<-23, -92, -368, -1473, -5872, -23231, -89130, -310605, -879539, -1914995, -3388765, -5235026, -7365940, -9689941, -12136685>>

\* electron-proton: gamma = 2^g (g = 3,5..27), eps = gamma 2^-i (i = 1..20)
BrP ==
  <<<<2120203, 2662188, 2993228, 3218116, 3384603, 3517166, 3628634, 3725972, 3813144, 3892539, 3965692, 4033653, 4097185, 4156869, 4213164, 4266446, 4317024, 4365164, 4411090, 4454999>>,
     <<2596441, 3006640, 3277371, 3463676, 3602074, 3712796, 3806607, 3889293, 3964079, 4032852, 4096787, 4156671, 4213066, 4266396, 4317000, 4365152, 4411084, 4454996, 4497059, 4537423>>,
     <<2917716, 3262361, 3498385, 3660667, 3780595, 3876346, 3957639, 4029648, 4095193, 4155877, 4212671, 4266200, 4316901, 4365103, 4411060, 4454984, 4497053, 4537420, 4576218, 4613567>>,
     <<3160486, 3465825, 3679284, 3825166, 3932023, 4016870, 4088826, 4152706, 4211091, 4265412, 4316509, 4364907, 4410962, 4454935, 4497029, 4537408, 4576212, 4613564, 4649569, 4684321>>,
     <<3355682, 3634809, 3832418, 3966389, 4063507, 4140057, 4204781, 4262267, 4314941, 4364125, 4410573, 4454741, 4496932, 4537359, 4576188, 4613552, 4649563, 4684318, 4717904, 4750398>>,
     <<3518928, 3779322, 3965186, 4090114, 4179695, 4249720, 4308677, 4361000, 4409014, 4453963, 4496544, 4537166, 4576092, 4613504, 4649539, 4684306, 4717898, 4750395, 4781868, 4812379>>,
     <<3659227, 3905564, 4082375, 4200202, 4283778, 4348537, 4402787, 4450855, 4494993, 4536392, 4575705, 4613311, 4649442, 4684258, 4717874, 4750383, 4781862, 4812376, 4841984, 4870741>>,
     <<3782242, 4017641, 4187260, 4299364, 4378041, 4438461, 4488798, 4533298, 4574161, 4612540, 4649058, 4684066, 4717779, 4750335, 4781838, 4812364, 4841978, 4870738, 4898691, 4925883>>,
     <<3891768, 4118413, 4282180, 4389574, 4464180, 4520962, 4567993, 4609459, 4647519, 4683298, 4717395, 4750144, 4781742, 4812316, 4841954, 4870726, 4898685, 4925880, 4952354, 4978144>>,
     <<3990474, 4209953, 4368867, 4472315, 4543483, 4597172, 4641373, 4680227, 4715861, 4749378, 4781360, 4812125, 4841859, 4870678, 4898661, 4925869, 4952348, 4978141, 5003283, 5027808>>,
     <<4080307, 4293812, 4448635, 4548730, 4616957, 4667984, 4709736, 4746316, 4779830, 4811361, 4841478, 4870487, 4898566, 4925821, 4952324, 4978129, 5003277, 5027805, 5051744, 5075122>>,
     <<4162730, 4371179, 4522508, 4619719, 4685400, 4734110, 4773722, 4808308, 4839952, 4869725, 4898185, 4925631, 4952229, 4978081, 5003254, 5027793, 5051738, 5075119, 5097964, 5120298>>,
     <<4238874, 4442988, 4591296, 4686000, 4749457, 4796134, 4833859, 4866679, 4896663, 4924870, 4951849, 4977892, 5003159, 5027746, 5051714, 5075107, 5097958, 5120295, 5142142, 5163521>>>>

\* electron-electron, relativistic
BrE ==
  <<<<1857787, 2524702, 2993559, 3376254, 3689422, 3908639, 4080911, 4221086, 4339275, 4441898, 4532993, 4615170, 4690193, 4759314, 4823460, 4883344, 4939529, 4992471, 5042546, 5090064>>,
     <<2504146, 2957528, 3278739, 3531114, 3760702, 4000970, 4185841, 4327488, 4443266, 4540174, 4624115, 4698969, 4767132, 4830094, 4888824, 4943986, 4996061, 5045421, 5092359, 5137118>>,
     <<2884791, 3243333, 3495620, 3680266, 3834242, 3983519, 4146946, 4344950, 4481508, 4592081, 4683556, 4760666, 4828061, 4888823, 4944812, 4997138, 5046488, 5093314, 5137930, 5180575>>,
     <<3148856, 3458533, 3676917, 3829515, 3946860, 4049352, 4151584, 4266167, 4404840, 4585754, 4697750, 4791804, 4869649, 4935147, 4992454, 5044328, 5092398, 5137610, 5180527, 5221501>>,
     <<3351635, 3632109, 3831185, 3967089, 4067188, 4148816, 4222615, 4296516, 4378437, 4477568, 4603916, 4775705, 4872444, 4955884, 5024662, 5082210, 5132440, 5177942, 5220229, 5260157>>,
     <<3517538, 3778352, 3964653, 4090132, 4180539, 4251955, 4313414, 4370370, 4427023, 4487958, 4559393, 4649674, 4768405, 4934298, 5020400, 5096261, 5158424, 5210065, 5254955, 5295583>>,
     <<3658754, 3905224, 4082165, 4200150, 4283953, 4349087, 4404007, 4453320, 4499809, 4545674, 4593433, 4646805, 4711573, 4795883, 4909265, 5070920, 5149097, 5219216, 5276294, 5323339>>,
     <<3782082, 4017523, 4187182, 4299332, 4378072, 4438592, 4489105, 4533934, 4575419, 4614988, 4653789, 4693172, 4735210, 4783387, 4843372, 4923274, 5032627, 5191046, 5263067, 5328667>>,
     <<3891715, 4118373, 4282152, 4389559, 4464182, 4520992, 4568069, 4609621, 4647843, 4683934, 4718632, 4752541, 4786378, 4821263, 4859139, 4903419, 4959742, 5036220, 5142407, 5298265>>,
     <<3990457, 4209939, 4368857, 4472309, 4543482, 4597179, 4641392, 4680268, 4715944, 4749542, 4781680, 4812748, 4843069, 4873026, 4903217, 4934686, 4969334, 5010546, 5063956, 5137686>>,
     <<4080301, 4293807, 4448632, 4548728, 4616956, 4667985, 4709740, 4746327, 4779851, 4811403, 4841560, 4870648, 4898879, 4926430, 4953510, 4980437, 5007766, 5036516, 5068568, 5107292>>,
     <<4162728, 4371177, 4522506, 4619718, 4685399, 4734110, 4773723, 4808310, 4839957, 4869736, 4898206, 4925672, 4952310, 4978238, 5003560, 5028391, 5052904, 5077394, 5102399, 5128922>>,
     <<4238874, 4442987, 4591296, 4685999, 4749456, 4796134, 4833859, 4866680, 4896664, 4924873, 4951855, 4977902, 5003179, 5027786, 5051793, 5075261, 5098259, 5120883, 5143292, 5165769>>>>

\* electron-electron below 2 MeV: gamma = 1 + 2^s (s = -5..1), eps = (gamma^2-1)/4 2^-i (i = 1..16)
BrN ==
  <<<<1893488, 2396600, 2664664, 2846011, 2985035, 3099940, 3199438, 3288143, 3368723, 3442841, 3511617, 3575853, 3636153, 3692994, 3746763, 3797781>>,
     <<1866421, 2391878, 2667473, 2851374, 2991083, 3105963, 3205179, 3293531, 3373755, 3447543, 3516021, 3579989, 3640051, 3696679, 3750256, 3801100>>,
     <<1825363, 2387270, 2675370, 2863356, 3003985, 3118601, 3217147, 3304730, 3384206, 3457306, 3525164, 3588580, 3648148, 3704334, 3757514, 3808001>>,
     <<1755377, 2381819, 2693674, 2889421, 3031670, 3145610, 3242699, 3328648, 3406541, 3478186, 3544737, 3606984, 3665507, 3720758, 3773097, 3822823>>,
     <<1605625, 2361753, 2729599, 2944821, 3091865, 3204982, 3299248, 3381826, 3456374, 3524907, 3588633, 3648341, 3704586, 3757787, 3808276, 3856327>>,
     <<1129390, 2220187, 2769683, 3053026, 3221456, 3337799, 3428347, 3504784, 3572626, 3634635, 3692289, 3746446, 3797649, 3846274, 3892604, 3936863>>,
     <<-777777775, -574504, 2520451, 3179844, 3465212, 3617696, 3714390, 3785180, 3842910, 3893455, 3939625, 3982822, 4023777, 4062902, 4100448, 4136584>>>>

\* E dsigma/dE (mb), T = 1.5 2^s GeV (s = -2..16), E = m_pi/2 2^i (i = 0..24)
PpGeant4 ==
  <<<<-2688905, -2935998, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<997614, 1444190, 1068992, -6883097, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<1484177, 1936822, 1854589, 953805, -3309525, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<1722017, 2238525, 2386051, 2103808, 1159951, -2171764, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<1988519, 2527015, 2743272, 2595236, 1964142, 417236, -4725798, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2216752, 2773856, 3054421, 3049894, 2737787, 2013934, 463887, -4312733, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2340197, 2790333, 3053892, 3114537, 2957634, 2545321, 1758209, 220129, -4014557, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2431499, 2930811, 3253875, 3394276, 3354278, 3129383, 2679010, 1876228, 342676, -3813316, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2510813, 3044067, 3407272, 3600048, 3634020, 3521090, 3253306, 2780982, 1969544, 438155, -3678376, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2585383, 3132935, 3513033, 3727781, 3792592, 3725803, 3531537, 3185718, 2618329, 1665053, -120984, -4900870, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2658182, 3225073, 3627427, 3870341, 3973367, 3961117, 3848038, 3628584, 3270031, 2696737, 1741378, -43729, -4811914, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2730772, 3311262, 3729148, 3991550, 4120723, 4145215, 4085589, 3946492, 3713610, 3348463, 2772158, 1815742, 31099, -4731232, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2804466, 3394539, 3823310, 4099287, 4246537, 4296160, 4272541, 4186359, 4033423, 3793604, 3425101, 2847274, 1890327, 105915, -4653488, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2880811, 3477643, 3914064, 4199542, 4359376, 4426366, 4427372, 4376831, 4276543, 4116465, 3873118, 3502922, 2924331, 1967116, 182821, -4575119, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2961675, 3563280, 4005088, 4297236, 4465871, 4544947, 4562965, 4536797, 4471970, 4364406, 4200698, 3955573, 3584527, 3005552, 2048204, 263966, -4493242, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<3049097, 3654073, 4099678, 4396519, 4571331, 4658857, 4688713, 4679381, 4638800, 4566606, 4455347, 4289809, 4043791, 3672319, 3093152, 2135737, 351528, -4405313, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<3144981, 3752340, 4200625, 4500772, 4679928, 4773383, 4811514, 4813895, 4790062, 4742052, 4666118, 4552995, 4386539, 4140074, 3768388, 3189126, 2231677, 447482, -4309176, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<3250818, 3859860, 4310037, 4612517, 4794732, 4892357, 4936294, 4946863, 4934681, 4903375, 4851593, 4773773, 4659716, 4492799, 4246110, 3874317, 3295007, 2337542, 553354, -4203213, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<3367545, 3977778, 4429292, 4733418, 4917791, 5018353, 5066372, 5082684, 5078647, 5058961, 5023861, 4970177, 4891411, 4776885, 4609739, 4362937, 3991091, 3411757, 2454283, 670099, -4086422, -777777775, -777777775, -777777775, -777777775>>>>

\* E dsigma/dE (mb), T = 1.5 2^s GeV (s = -2..16), E = m_pi/2 2^i (i = 0..24)
PpPythia8 ==
  <<<<-2688905, -2935998, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<997614, 1444190, 1068992, -6883097, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<1484177, 1936822, 1854589, 953805, -3309525, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<1722017, 2238525, 2386051, 2103808, 1159951, -2171764, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<1988519, 2527015, 2743272, 2595236, 1964142, 417236, -4725798, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2216752, 2773856, 3054421, 3049894, 2737787, 2013934, 463887, -4312733, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2340197, 2790333, 3053892, 3114537, 2957634, 2545321, 1758209, 220129, -4014557, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2431499, 2930811, 3253875, 3394276, 3354278, 3129383, 2679010, 1876228, 342676, -3813316, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2396399, 2944515, 3340783, 3574208, 3646177, 3564991, 3325472, 2884107, 2115740, 659541, -3259817, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2439158, 3009798, 3432284, 3699314, 3817617, 3804102, 3668897, 3399149, 2942489, 2167625, 711312, -3189793, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2480808, 3067235, 3507895, 3797930, 3947444, 3978464, 3909542, 3742954, 3456775, 2992101, 2213893, 757506, -3134467, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2522164, 3119693, 3573035, 3878984, 4049850, 4110869, 4085586, 3984598, 3801010, 3506253, 3037477, 2257572, 801143, -3086263, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2563668, 3169020, 3631249, 3948283, 4133909, 4215446, 4219560, 4161769, 4043443, 3850995, 3551853, 3081001, 2300241, 843790, -3041331, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2605789, 3216660, 3685135, 4009926, 4205826, 4301542, 4325758, 4297063, 4221715, 4094362, 3897389, 3596031, 3124134, 2342946, 886484, -2997496, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2649050, 3263817, 3736690, 4066926, 4270012, 4375595, 4413699, 4404900, 4358500, 4274016, 4142055, 3942795, 3640323, 3167902, 2386499, 930031, -2953377, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2693811, 3311331, 3787303, 4121371, 4329499, 4441981, 4489749, 4494694, 4468086, 4412476, 4323329, 4189040, 3988631, 3685600, 3212917, 2431406, 974935, -2908187, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2739936, 3359400, 3837560, 4174327, 4386002, 4503324, 4557847, 4572354, 4559419, 4523550, 4463240, 4371738, 4236278, 4035293, 3731982, 3259168, 2477604, 1021132, -2861848, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2786538, 3407376, 3887081, 4225752, 4439925, 4560651, 4619913, 4641104, 4637680, 4615447, 4574853, 4512170, 4419484, 4283437, 4082164, 3778713, 3305833, 2524242, 1067769, -2815140, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2832042, 3453851, 3934648, 4274663, 4490597, 4613720, 4676315, 4702195, 4705419, 4692672, 4665696, 4622716, 4558840, 4465561, 4329220, 4127803, 3824281, 3351369, 2569764, 1113291, -2769582, -777777775, -777777775, -777777775, -777777775>>>>

\* E dsigma/dE (mb), T = 1.5 2^s GeV (s = -2..16), E = m_pi/2 2^i (i = 0..24)
PpSIBYLL ==
  <<<<-2688905, -2935998, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<997614, 1444190, 1068992, -6883097, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<1484177, 1936822, 1854589, 953805, -3309525, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<1722017, 2238525, 2386051, 2103808, 1159951, -2171764, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<1988519, 2527015, 2743272, 2595236, 1964142, 417236, -4725798, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2216752, 2773856, 3054421, 3049894, 2737787, 2013934, 463887, -4312733, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2340197, 2790333, 3053892, 3114537, 2957634, 2545321, 1758209, 220129, -4014557, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2431499, 2930811, 3253875, 3394276, 3354278, 3129383, 2679010, 1876228, 342676, -3813316, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2510813, 3044067, 3407272, 3600048, 3634020, 3521090, 3253306, 2780982, 1969544, 438155, -3678376, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2466006, 3042933, 3473994, 3751793, 3883122, 3885876, 3772491, 3534118, 3125392, 2429167, 1119066, -2391638, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2489175, 3080313, 3527736, 3826248, 3985673, 4028514, 3974787, 3829260, 3573968, 3156915, 2457108, 1146651, -2355979, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2521448, 3122579, 3581419, 3894257, 4072903, 4142745, 4128296, 4041809, 3878850, 3614721, 3193404, 2491781, 1181141, -2317451, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2562353, 3170524, 3637364, 3960180, 4152113, 4240422, 4252430, 4204821, 4100598, 3928548, 3659902, 3236426, 2533889, 1223156, -2273416, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2611110, 3224249, 3696710, 4026509, 4227689, 4328761, 4358861, 4337439, 4271897, 4158432, 3981737, 3710807, 3286246, 2583250, 1272470, -2223093, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2666815, 3283460, 3759880, 4094580, 4302228, 4412180, 4454780, 4451264, 4411775, 4336892, 4218708, 4039666, 3767587, 3342482, 2639256, 1328453, -2166605, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2728532, 3347654, 3826864, 4165013, 4377198, 4493360, 4544657, 4553511, 4531835, 4482939, 4403288, 4282719, 4102497, 3829842, 3404464, 2701123, 1390309, -2104497, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2795361, 3416233, 3897413, 4237991, 4453369, 4573886, 4631263, 4648723, 4639352, 4608223, 4554525, 4472466, 4350698, 4169885, 3896941, 3471427, 2768028, 1457208, -2037472, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2866491, 3488600, 3971169, 4313461, 4531088, 4654668, 4716311, 4739786, 4738975, 4720119, 4684165, 4628042, 4544771, 4422403, 4241293, 3968205, 3542623, 2839195, 1528372, -1966245, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2941241, 3564225, 4047776, 4391278, 4610490, 4736228, 4800870, 4828565, 4833737, 4823418, 4799721, 4761331, 4703988, 4620110, 4497441, 4316183, 4043023, 3617406, 2913965, 1603140, -1891445, -777777775, -777777775, -777777775, -777777775>>>>

\* E dsigma/dE (mb), T = 1.5 2^s GeV (s = -2..16), E = m_pi/2 2^i (i = 0..24)
PpQGSJET ==
  <<<<-2688905, -2935998, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<997614, 1444190, 1068992, -6883097, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<1484177, 1936822, 1854589, 953805, -3309525, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<1722017, 2238525, 2386051, 2103808, 1159951, -2171764, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<1988519, 2527015, 2743272, 2595236, 1964142, 417236, -4725798, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2216752, 2773856, 3054421, 3049894, 2737787, 2013934, 463887, -4312733, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2340197, 2790333, 3053892, 3114537, 2957634, 2545321, 1758209, 220129, -4014557, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2431499, 2930811, 3253875, 3394276, 3354278, 3129383, 2679010, 1876228, 342676, -3813316, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2510813, 3044067, 3407272, 3600048, 3634020, 3521090, 3253306, 2780982, 1969544, 438155, -3678376, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2995793, 3560690, 3978067, 4238752, 4347193, 4317931, 4158258, 3850858, 3335109, 2462373, 823511, -3565487, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2956379, 3539033, 3976848, 4263403, 4406947, 4427780, 4342673, 4151326, 3827367, 3303595, 2427601, 788909, -3589688, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2933488, 3528631, 3980709, 4285163, 4452723, 4507302, 4471288, 4353740, 4145195, 3812579, 3284695, 2407047, 768436, -3604959, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2926791, 3530733, 3992807, 4309729, 4493892, 4571553, 4568608, 4499656, 4364531, 4147012, 3809968, 3280003, 2401521, 762950, -3607844, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2935692, 3545842, 4014941, 4340589, 4536309, 4629921, 4649591, 4613372, 4526597, 4382309, 4160205, 3820921, 3289909, 2411009, 772457, -3597036, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2959415, 3573948, 4047994, 4379767, 4583571, 4688282, 4723577, 4709740, 4655531, 4559472, 4410505, 4186083, 3845673, 3314136, 2435025, 796483, -3572359, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<2997025, 3614654, 4092188, 4428270, 4637747, 4750219, 4796384, 4798010, 4766068, 4702491, 4601691, 4450360, 4224772, 3883798, 3351997, 2472782, 834244, -3534273, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<3047417, 3667234, 4147229, 4486348, 4699814, 4817731, 4871497, 4883879, 4867318, 4825951, 4757592, 4654397, 4501877, 4275705, 3934447, 3402515, 2523248, 884712, -3483642, -777777775, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<3109290, 3730653, 4212386, 4553647, 4769923, 4891670, 4950767, 4970669, 4964808, 4938781, 4892603, 4821828, 4717429, 4564313, 4337848, 3996449, 3464452, 2585158, 946623, -3421650, -777777775, -777777775, -777777775, -777777775, -777777775>>,
     <<3181112, 3803569, 4286528, 4629302, 4847560, 4972003, 5034849, 5060026, 5061645, 5046289, 5015432, 4966823, 4894834, 4789831, 4636417, 4409805, 4068336, 3536305, 2656998, 1018465, -3349768, -777777775, -777777775, -777777775, -777777775>>>>

\* nuclear enhancement
NucT ==
  <<649248, 649248, 609529, 587956, 582081, 579095, 575911, 571792, 566636, 560523, 553593, 546002, 542909, 542521, 541750, 540580, 539010, 537052, 534732>>

\* Kelner: protons E^-alpha (alpha = 2, 2.5, 3), E = 2^k TeV (k = -5..6)
KelHi ==
  <<<<8709451, 7366903, 6034302, 4709694, 3390876, 2075598, 761738, -552582, -1868936, -3188569, -4512415, -5841130>>,
     <<9121151, 7407899, 5708442, 4020874, 2342670, 670993, -996994, -2663899, -4331945, -6002913, -7678134, -9358535>>,
     <<9857311, 7782307, 5723526, 3679199, 1646637, -377389, -2396239, -4413066, -6430587, -8450973, -10475838, -12506281>>>>

\* delta approximation, n-hat = 1: k = -14..0
KelLo ==
  <<<<18629927, 18285595, 17545241, 16517341, 15316214, 14027046, 12695271, 11345045, 9988985, 8633351, 7280996, 5933000, 4589529, 3250302, 1914824>>,
     <<21651810, 21243039, 20346723, 19087523, 17603235, 16000711, 14339041, 12650215, 10951109, 9250215, 7551537, 5856737, 4166278, 2480021, 797543>>,
     <<24702965, 24232363, 23182870, 21694827, 19929222, 18014564, 16023822, 13996990, 11955300, 9909527, 7864846, 5823516, 3786298, 1753204, -276118>>>>

=============================================================================
