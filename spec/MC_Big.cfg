CONSTANTS
Vals = {0, 1, 2, 3, 5, 7, 64, 4095, 4096, 4097, 8191, 8192, 46341, 65535, 65536, 999999, 16777215, 16777216, 16777217, 33554431, 268435456, 123456789, 1073741821}
Smalls = {0, 1, 2}
SPECIFICATION Spec
INVARIANTS AddOk SubOk MulOk DistOk DivOk CmpOk GcdOk BitsOk XorOk SignOk
CHECK_DEADLOCK FALSE
