-------------------------------- MODULE Trig --------------------------------
(* Sine and cosine of an angle in 1e-4 rad, times 16384, in integers: a table    *)
(* every 0.04 rad and the addition formulas.                                    *)
EXTENDS Integers, Sequences
TS == 16384
SinT == << 0, 655, 1309, 1961, 2610, 3255, 3895, 4528, 5154, 5772, 6380, 6979, 7566, 8141, 8703, 9251, 9784, 10302, 10803, 11287, 11753, 12200, 12628, 13035, 13422, 13787, 14130, 14450, 14747, 15021, 15271, 15496, 15696, 15871, 16021, 16146, 16244, 16317, 16363, 16383, 16377, 16345, 16286, 16202, 16092, 15956, 15794, 15607, 15395, 15159, 14898, 14613, 14305, 13975, 13621, 13246, 12850, 12434, 11997, 11541, 11067, 10575, 10066, 9541, 9001, 8446, 7878, 7297, 6705, 6101, 5488, 4867, 4237, 3601, 2959, 2312, 1662, 1008, 354, -302, -956, -1610, -2260, -2908, -3550, -4187, -4817, -5439, -6053, -6657, -7250, -7832, -8401, -8957, -9498, -10025, -10535, -11028, -11504, -11961, -12399, -12818, -13216, -13592, -13947, -14280, -14590, -14876, -15139, -15377, -15591, -15780, -15944, -16082, -16194, -16281, -16341, -16375, -16384, -16365, -16321, -16251, -16154, -16032, -15884, -15711, -15513, -15289, -15042, -14770, -14475, -14156, -13815, -13451, -13067, -12661, -12235, -11789, -11325, -10843, -10343, -9826, -9294, -8747, -8186, -7612, -7026, -6428, -5820, -5203, -4578, -3945, -3306, -2662, -2013, -1361, -707, -52 >>
CosT == << 16384, 16371, 16332, 16266, 16175, 16057, 15914, 15746, 15552, 15334, 15091, 14823, 14533, 14218, 13881, 13522, 13142, 12740, 12318, 11876, 11415, 10936, 10439, 9926, 9397, 8852, 8294, 7722, 7138, 6543, 5937, 5321, 4698, 4066, 3428, 2785, 2137, 1486, 832, 177, -478, -1133, -1786, -2435, -3081, -3722, -4358, -4986, -5606, -6217, -6818, -7408, -7987, -8553, -9105, -9642, -10164, -10670, -11158, -11629, -12081, -12514, -12927, -13319, -13690, -14039, -14366, -14669, -14949, -15206, -15437, -15645, -15827, -15983, -16115, -16220, -16300, -16353, -16380, -16381, -16356, -16305, -16227, -16124, -15995, -15840, -15660, -15455, -15225, -14971, -14692, -14391, -14066, -13719, -13350, -12959, -12548, -12117, -11666, -11197, -10709, -10205, -9684, -9148, -8597, -8032, -7455, -6866, -6265, -5655, -5035, -4408, -3773, -3133, -2487, -1838, -1185, -531, 125, 780, 1434, 2085, 2733, 3377, 4016, 4648, 5272, 5888, 6495, 7091, 7676, 8249, 8808, 9354, 9884, 10399, 10897, 11377, 11840, 12283, 12707, 13110, 13493, 13854, 14192, 14508, 14801, 15070, 15315, 15536, 15731, 15902, 16047, 16166, 16260, 16327, 16369, 16384 >>
TRnd(a, b) == IF a >= 0 THEN (2 * a + b) \div (2 * b) ELSE 0 - ((b - 2 * a) \div (2 * b))
TFold(t) == t % 62832
TSmall(r) == TRnd(TS * r, 10000)
TCSmall(r) == TS - TRnd(TS * ((r * r) \div 16), 12500000)
SinQ(t) == LET u == TFold(t) k == (u \div 400) + 1 r == u % 400 IN TRnd(SinT[k] * TCSmall(r) + CosT[k] * TSmall(r), TS)
CosQ(t) == LET u == TFold(t) k == (u \div 400) + 1 r == u % 400 IN TRnd(CosT[k] * TCSmall(r) - SinT[k] * TSmall(r), TS)
=============================================================================
