// Gains of the loudspeaker renderers: input, output, rows, columns, row-major
// values ("zN": N zeros). Values of the tables published with the library.
{"0+1+0", "0+2+0", 1, 2, "0.707107 0.707107"},
{"0+1+0", "0+5+0", 1, 6, "z2 1 z3"},
{"0+1+0", "2+5+0", 1, 8, "z2 1 z5"},
{"0+1+0", "4+5+0", 1, 10, "z2 1 z7"},
{"0+1+0", "4+5+1", 1, 11, "z2 1 z8"},
{"0+1+0", "3+7+0", 1, 12, "1 z11"},
{"0+1+0", "4+9+0", 1, 14, "z2 1 z11"},
{"0+1+0", "9+10+3", 1, 24, "z2 1 z21"},
{"0+1+0", "0+7+0", 1, 8, "z2 1 z5"},
{"0+1+0", "4+7+0", 1, 12, "z2 1 z9"},
{"0+1+0", "7.1.5.4", 1, 17, "z2 1 z14"},
{"0+1+0", "3.1.2", 1, 6, "z2 1 z3"},
{"0+1+0", "7.1.2", 1, 10, "z2 1 z7"},
{"0+1+0", "9.1.6", 1, 16, "z2 1 z13"},
{"0+2+0", "0+1+0", 2, 1, "0.5 0.5"},
{"0+2+0", "0+5+0", 2, 6, "1 z6 1 z4"},
{"0+2+0", "2+5+0", 2, 8, "1 z8 1 z6"},
{"0+2+0", "4+5+0", 2, 10, "1 z10 1 z8"},
{"0+2+0", "4+5+1", 2, 11, "1 z11 1 z9"},
{"0+2+0", "3+7+0", 2, 12, "z1 1 z12 1 z9"},
{"0+2+0", "4+9+0", 2, 14, "1 z14 1 z12"},
{"0+2+0", "9+10+3", 2, 24, "z6 1 z24 1 z16"},
{"0+2+0", "0+7+0", 2, 8, "1 z8 1 z6"},
{"0+2+0", "4+7+0", 2, 12, "1 z12 1 z10"},
{"0+2+0", "7.1.5.4", 2, 17, "1 z17 1 z15"},
{"0+2+0", "3.1.2", 2, 6, "1 z6 1 z4"},
{"0+2+0", "7.1.2", 2, 10, "1 z10 1 z8"},
{"0+2+0", "9.1.6", 2, 16, "z6 1 z16 1 z8"},
{"0+5+0", "0+1+0", 6, 1, "0.5 0.5 0.707107 z1 0.353553 0.353553"},
{"0+5+0", "0+2+0", 6, 2, "1 z2 1 0.707107 0.707107 z2 0.707107 z2 0.707107"},
{"0+5+0", "2+5+0", 6, 8, "1 z8 1 z8 1 z8 1 z8 1 z8 1 z2"},
{"0+5+0", "4+5+0", 6, 10, "1 z10 1 z10 1 z10 1 z10 1 z10 1 z4"},
{"0+5+0", "4+5+1", 6, 11, "1 z11 1 z11 1 z11 1 z11 1 z11 1 z5"},
{"0+5+0", "3+7+0", 6, 12, "z1 1 z12 1 z9 1 z21 1 z8 1 z12 1 z3"},
{"0+5+0", "4+9+0", 6, 14, "1 z14 1 z14 1 z14 1 z16 1 z14 1 z6"},
{"0+5+0", "9+10+3", 6, 24, "z6 1 z24 1 z18 1 z24 1 z24 1 z24 1 z18"},
{"0+5+0", "0+7+0", 6, 8, "1 z8 1 z8 1 z8 1 z10 1 z8 1"},
{"0+5+0", "4+7+0", 6, 12, "1 z12 1 z12 1 z12 1 z14 1 z12 1 z4"},
{"0+5+0", "7.1.5.4", 6, 17, "1 z17 1 z17 1 z17 1 z19 1 z17 1 z9"},
{"0+5+0", "3.1.2", 6, 6, "1 z6 1 z6 1 z6 1 z2 0.7071068 z6 0.7071068 z4"},
{"0+5+0", "7.1.2", 6, 10, "1 z10 1 z10 1 z10 1 z12 1 z10 1 z2"},
{"0+5+0", "9.1.6", 6, 16, "z6 1 z16 1 z10 1 z16 1 z16 1 z16 1 z10"},
{"2+5+0", "0+1+0", 8, 1, "0.5 0.5 0.707107 z1 0.353553 0.353553 0.5 0.5"},
{"2+5+0", "0+2+0", 8, 2, "1 z2 1 0.707107 0.707107 z2 0.707107 z2 0.707107 1 z2 1"},
{"2+5+0", "0+5+0", 8, 6, "1 z6 1 z6 1 z6 1 z6 1 z6 1 1 z6 1 z4"},
{"2+5+0", "4+5+0", 8, 10, "1 z10 1 z10 1 z10 1 z10 1 z10 1 z10 1 z10 1 z2"},
{"2+5+0", "4+5+1", 8, 11, "1 z11 1 z11 1 z11 1 z11 1 z11 1 z11 1 z11 1 z3"},
{"2+5+0", "3+7+0", 8, 12, "z1 1 z12 1 z9 1 z21 1 z8 1 z12 1 z6 1 z12 1 z7"},
{"2+5+0", "4+9+0", 8, 14, "1 z14 1 z14 1 z14 1 z16 1 z14 1 z14 1 z14 1 z4"},
{"2+5+0", "9+10+3", 8, 24, "z6 1 z24 1 z18 1 z24 1 z24 1 z24 1 z30 1 z24 1 z10"},
{"2+5+0", "0+7+0", 8, 8, "1 z8 1 z8 1 z8 1 z10 1 z8 1 1 z8 1 z6"},
{"2+5+0", "4+7+0", 8, 12, "1 z12 1 z12 1 z12 1 z14 1 z12 1 z12 1 z12 1 z2"},
{"2+5+0", "7.1.5.4", 8, 17, "1 z17 1 z17 1 z17 1 z19 1 z17 1 z17 1 z17 1 z7"},
{"2+5+0", "3.1.2", 8, 6, "1 z6 1 z6 1 z6 1 z2 0.7071068 z6 0.7071068 z8 1 z6 1"},
{"2+5+0", "7.1.2", 8, 10, "1 z10 1 z10 1 z10 1 z12 1 z10 1 z10 1 z10 1"},
{"2+5+0", "9.1.6", 8, 16, "z6 1 z16 1 z10 1 z16 1 z16 1 z16 1 z20 1 z16 1 z4"},
{"4+5+0", "0+1+0", 10, 1, "0.5 0.5 0.707107 z1 0.353553 0.353553 0.5 0.5 0.353553 0.353553"},
{"4+5+0", "0+2+0", 10, 2, "1 z2 1 0.707107 0.707107 z2 0.707107 z2 0.707107 1 z2 1 0.707107 z2 0.707107"},
{"4+5+0", "0+5+0", 10, 6, "1 z6 1 z6 1 z6 1 z6 1 z6 1 1 z6 1 z8 1 z6 1"},
{"4+5+0", "2+5+0", 10, 8, "1 z8 1 z8 1 z8 1 z8 1 z8 1 z8 1 z8 1 z4 1 z8 1 z2"},
{"4+5+0", "4+5+1", 10, 11, "1 z11 1 z11 1 z11 1 z11 1 z11 1 z11 1 z11 1 z11 1 z11 1 z1"},
{"4+5+0", "3+7+0", 10, 12, "z1 1 z12 1 z9 1 z21 1 z8 1 z12 1 z6 1 z12 1 z10 0.7071068 z5 0.7071068 z6 0.7071068 z4 0.7071068 z2"},
{"4+5+0", "4+9+0", 10, 14, "1 z14 1 z14 1 z14 1 z16 1 z14 1 z14 1 z14 1 z14 1 z14 1 z2"},
{"4+5+0", "9+10+3", 10, 24, "z6 1 z24 1 z18 1 z24 1 z24 1 z24 1 z30 1 z24 1 z26 1 z24 1 z6"},
{"4+5+0", "0+7+0", 10, 8, "1 z8 1 z8 1 z8 1 z10 1 z8 1 1 z8 1 z12 1 z8 1"},
{"4+5+0", "4+7+0", 10, 12, "1 z12 1 z12 1 z12 1 z14 1 z12 1 z12 1 z12 1 z12 1 z12 1"},
{"4+5+0", "7.1.5.4", 10, 17, "1 z17 1 z17 1 z17 1 z19 1 z17 1 z17 1 z17 1 z17 1 z17 1 z5"},
{"4+5+0", "3.1.2", 10, 6, "1 z6 1 z6 1 z6 1 z2 0.7071068 z6 0.7071068 z8 1 z6 1 z4 0.7071068 z6 0.7071068"},
{"4+5+0", "7.1.2", 10, 10, "1 z10 1 z10 1 z10 1 z12 1 z10 1 z10 1 z10 1 z8 0.7071068 z10 0.7071068"},
{"4+5+0", "9.1.6", 10, 16, "z6 1 z16 1 z10 1 z16 1 z16 1 z16 1 z20 1 z16 1 z16 1 z16 1 z2"},
{"0+7+0", "0+1+0", 8, 1, "0.5 0.5 0.707107 z1 0.353553 0.353553 0.353553 0.353553"},
{"0+7+0", "0+2+0", 8, 2, "1 z2 1 0.707107 0.707107 z2 0.707107 z2 0.707107 0.707107 z2 0.707107"},
{"0+7+0", "0+5+0", 8, 6, "1 z6 1 z6 1 z6 1 z2 0.7071068 z3 0.7071068 z2 0.7071068 z3 0.7071068 z4 1 z6 1"},
{"0+7+0", "2+5+0", 8, 8, "1 z8 1 z8 1 z8 1 z4 0.7071068 z3 0.7071068 z4 0.7071068 z3 0.7071068 z6 1 z8 1 z2"},
{"0+7+0", "4+5+0", 8, 10, "1 z10 1 z10 1 z10 1 z6 0.7071068 z3 0.7071068 z6 0.7071068 z3 0.7071068 z8 1 z10 1 z4"},
{"0+7+0", "4+5+1", 8, 11, "1 z11 1 z11 1 z11 1 z7 0.7071068 z3 0.7071068 z7 0.7071068 z3 0.7071068 z9 1 z11 1 z5"},
{"0+7+0", "3+7+0", 8, 12, "z1 1 z12 1 z9 1 z21 1 z6 1 z12 1 z12 1 z12 1 z3"},
{"0+7+0", "4+9+0", 8, 14, "1 z14 1 z14 1 z14 1 z14 1 z14 1 z14 1 z14 1 z6"},
{"0+7+0", "9+10+3", 8, 24, "z6 1 z24 1 z18 1 z24 1 z30 1 z24 1 z16 1 z24 1 z18"},
{"0+7+0", "4+7+0", 8, 12, "1 z12 1 z12 1 z12 1 z12 1 z12 1 z12 1 z12 1 z4"},
{"0+7+0", "7.1.5.4", 8, 17, "1 z17 1 z17 1 z17 1 z17 1 z17 1 z17 1 z17 1 z9"},
{"0+7+0", "3.1.2", 8, 6, "1 z6 1 z6 1 z6 1 z2 1.207107 z6 1.207107 z4 0.7071068 z6 0.7071068 z4"},
{"0+7+0", "7.1.2", 8, 10, "1 z10 1 z10 1 z10 1 z10 1 z10 1 z10 1 z10 1 z2"},
{"0+7+0", "9.1.6", 8, 16, "z6 1 z16 1 z10 1 z16 1 z20 1 z16 1 z10 1 z16 1 z10"},
{"4+7+0", "0+1+0", 12, 1, "0.5 0.5 0.707107 z1 0.353553 0.353553 0.353553 0.353553 0.5 0.5 0.353553 0.353553"},
{"4+7+0", "0+2+0", 12, 2, "1 z2 1 0.707107 0.707107 z2 0.707107 z2 0.707107 0.707107 z2 0.707107 1 z2 1 0.707107 z2 0.707107"},
{"4+7+0", "0+5+0", 12, 6, "1 z6 1 z6 1 z6 1 z2 0.7071068 z3 0.7071068 z2 0.7071068 z3 0.7071068 z4 1 z6 1 1 z6 1 z8 1 z6 1"},
{"4+7+0", "2+5+0", 12, 8, "1 z8 1 z8 1 z8 1 z4 0.7071068 z3 0.7071068 z4 0.7071068 z3 0.7071068 z6 1 z8 1 z8 1 z8 1 z4 1 z8 1 z2"},
{"4+7+0", "4+5+0", 12, 10, "1 z10 1 z10 1 z10 1 z6 0.7071068 z3 0.7071068 z6 0.7071068 z3 0.7071068 z8 1 z10 1 z10 1 z10 1 z10 1 z10 1"},
{"4+7+0", "4+5+1", 12, 11, "1 z11 1 z11 1 z11 1 z7 0.7071068 z3 0.7071068 z7 0.7071068 z3 0.7071068 z9 1 z11 1 z11 1 z11 1 z11 1 z11 1 z1"},
{"4+7+0", "3+7+0", 12, 12, "z1 1 z12 1 z9 1 z21 1 z6 1 z12 1 z12 1 z12 1 z6 1 z12 1 z10 0.7071068 z5 0.7071068 z6 0.7071068 z4 0.7071068 z2"},
{"4+7+0", "4+9+0", 12, 14, "1 z14 1 z14 1 z14 1 z14 1 z14 1 z14 1 z14 1 z14 1 z14 1 z14 1 z14 1 z2"},
{"4+7+0", "9+10+3", 12, 24, "z6 1 z24 1 z18 1 z24 1 z30 1 z24 1 z16 1 z24 1 z30 1 z24 1 z26 1 z24 1 z6"},
{"4+7+0", "0+7+0", 12, 8, "1 z8 1 z8 1 z8 1 z8 1 z8 1 z8 1 z8 1 1 z8 1 z12 1 z8 1"},
{"4+7+0", "7.1.5.4", 12, 17, "1 z17 1 z17 1 z17 1 z17 1 z17 1 z17 1 z17 1 z17 1 z17 1 z17 1 z17 1 z5"},
{"4+7+0", "3.1.2", 12, 6, "1 z6 1 z6 1 z6 1 z2 0.7071068 z6 0.7071068 z4 0.7071068 z6 0.7071068 z8 1 z6 1 z4 0.7071068 z6 0.7071068"},
{"4+7+0", "7.1.2", 12, 10, "1 z10 1 z10 1 z10 1 z10 1 z10 1 z10 1 z10 1 z10 1 z10 1 z8 0.7071068 z10 0.7071068"},
{"4+7+0", "9.1.6", 12, 16, "z6 1 z16 1 z10 1 z16 1 z20 1 z16 1 z10 1 z16 1 z20 1 z16 1 z16 1 z16 1 z2"},
{"7.1.2", "0+1+0", 10, 1, "0.5 0.5 0.707107 z1 0.353553 0.353553 0.353553 0.353553 0.5 0.5"},
{"7.1.2", "0+2+0", 10, 2, "1 z2 1 0.707107 0.707107 z2 0.707107 z2 0.707107 0.707107 z2 0.707107 1 z2 1"},
{"7.1.2", "0+5+0", 10, 6, "1 z6 1 z6 1 z6 1 z2 0.7071068 z3 0.7071068 z2 0.7071068 z3 0.7071068 z4 1 z6 1 1 z6 1 z4"},
{"7.1.2", "2+5+0", 10, 8, "1 z8 1 z8 1 z8 1 z4 0.7071068 z3 0.7071068 z4 0.7071068 z3 0.7071068 z6 1 z8 1 z8 1 z8 1"},
{"7.1.2", "4+5+0", 10, 10, "1 z10 1 z10 1 z10 1 z6 0.7071068 z3 0.7071068 z6 0.7071068 z3 0.7071068 z8 1 z10 1 z10 1 z10 1 z2"},
{"7.1.2", "4+5+1", 10, 11, "1 z11 1 z11 1 z11 1 z7 0.7071068 z3 0.7071068 z7 0.7071068 z3 0.7071068 z9 1 z11 1 z11 1 z11 1 z3"},
{"7.1.2", "3+7+0", 10, 12, "z1 1 z12 1 z9 1 z21 1 z6 1 z12 1 z12 1 z12 1 z6 1 z12 1 z7"},
{"7.1.2", "4+9+0", 10, 14, "1 z14 1 z14 1 z14 1 z14 1 z14 1 z14 1 z14 1 z14 1 z14 1 z4"},
{"7.1.2", "9+10+3", 10, 24, "z6 1 z24 1 z18 1 z24 1 z30 1 z24 1 z16 1 z24 1 z30 1 z24 1 z10"},
{"7.1.2", "0+7+0", 10, 8, "1 z8 1 z8 1 z8 1 z8 1 z8 1 z8 1 z8 1 1 z8 1 z6"},
{"7.1.2", "4+7+0", 10, 12, "1 z12 1 z12 1 z12 1 z12 1 z12 1 z12 1 z12 1 z12 1 z12 1 z2"},
{"7.1.2", "7.1.5.4", 10, 17, "1 z17 1 z17 1 z17 1 z17 1 z17 1 z17 1 z17 1 z17 1 z17 1 z7"},
{"7.1.2", "3.1.2", 10, 6, "1 z6 1 z6 1 z6 1 z2 1.207107 z6 1.207107 z4 0.7071068 z6 0.7071068 z8 1 z6 1"},
{"7.1.2", "9.1.6", 10, 16, "z6 1 z16 1 z10 1 z16 1 z20 1 z16 1 z10 1 z16 1 z20 1 z16 1 z4"},
{"3.1.2", "0+1+0", 6, 1, "0.5 0.5 0.707107 z1 0.5 0.5"},
{"3.1.2", "0+2+0", 6, 2, "1 z2 1 0.707107 0.707107 z2 1 z2 1"},
{"3.1.2", "0+5+0", 6, 6, "1 z6 1 z6 1 z6 1 z2 1 z6 1 z4"},
{"3.1.2", "2+5+0", 6, 8, "1 z8 1 z8 1 z8 1 z10 1 z8 1"},
{"3.1.2", "4+5+0", 6, 10, "1 z10 1 z10 1 z10 1 z12 1 z10 1 z2"},
{"3.1.2", "4+5+1", 6, 11, "1 z11 1 z11 1 z11 1 z13 1 z11 1 z3"},
{"3.1.2", "3+7+0", 6, 12, "z1 1 z12 1 z9 1 z21 1 z4 1 z12 1 z7"},
{"3.1.2", "4+9+0", 6, 14, "1 z14 1 z14 1 z14 1 z18 1 z14 1 z4"},
{"3.1.2", "9+10+3", 6, 24, "z6 1 z24 1 z18 1 z24 1 z32 1 z24 1 z10"},
{"3.1.2", "0+7+0", 6, 8, "1 z8 1 z8 1 z8 1 z4 1 z8 1 z6"},
{"3.1.2", "4+7+0", 6, 12, "1 z12 1 z12 1 z12 1 z16 1 z12 1 z2"},
{"3.1.2", "7.1.5.4", 6, 17, "1 z17 1 z17 1 z17 1 z21 1 z17 1 z7"},
{"3.1.2", "7.1.2", 6, 10, "1 z10 1 z10 1 z10 1 z14 1 z10 1"},
{"3.1.2", "9.1.6", 6, 16, "z6 1 z16 1 z10 1 z16 1 z22 1 z16 1 z4"},
{"9.1.6", "0+1+0", 16, 1, "0.5 0.5 0.707107 z1 0.353553 0.353553 0.5 0.5 0.353553 0.353553 0.5 0.5 0.353553 0.353553 0.353553 0.353553"},
{"9.1.6", "0+2+0", 16, 2, "1 z2 1 0.707107 0.707107 z2 0.707107 z2 0.707107 1 z2 1 0.707107 z2 0.707107 1 z2 1 0.707107 z2 0.707107 0.707107 z2 0.707107"},
{"9.1.6", "0+5+0", 16, 6, "0.8164966 z3 0.5773503 z2 0.8164966 z3 0.5773503 z2 1 z6 1 z6 1 z6 1 1 z6 1 z4 0.5773503 z3 0.8164966 z2 0.5773503 z3 0.8164966 1 z6 1 z8 1 z6 1 0.7071068 z3 0.7071068 z2 0.7071068 z3 0.7071068"},
{"9.1.6", "2+5+0", 16, 8, "0.8164966 z3 0.5773503 z4 0.8164966 z3 0.5773503 z4 1 z8 1 z8 1 z8 1 z2 1 z8 1 z6 0.5773503 z3 0.8164966 z4 0.5773503 z3 0.8164966 z8 1 z8 1 z4 1 z8 1 z6 0.7071068 z1 0.7071068 z6 0.7071068 z1 0.7071068"},
{"9.1.6", "4+5+0", 16, 10, "0.8164966 z3 0.5773503 z6 0.8164966 z3 0.5773503 z6 1 z10 1 z10 1 z10 1 z4 1 z10 1 z8 0.5773503 z3 0.8164966 z6 0.5773503 z3 0.8164966 z10 1 z10 1 z10 1 z10 1 z6 0.7071068 z1 0.7071068 z8 0.7071068 z1 0.7071068"},
{"9.1.6", "4+5+1", 16, 11, "0.8164966 z3 0.5773503 z7 0.8164966 z3 0.5773503 z7 1 z11 1 z11 1 z11 1 z5 1 z11 1 z9 0.5773503 z3 0.8164966 z7 0.5773503 z3 0.8164966 z11 1 z11 1 z11 1 z11 1 z7 0.7071068 z1 0.7071068 z9 0.7071068 z1 0.7071068 z1"},
{"9.1.6", "3+7+0", 16, 12, "z1 0.7071068 z3 0.7071068 z8 0.7071068 z3 0.7071068 z5 1 z21 1 z8 1 z12 1 z4 1 z12 1 z14 1 z12 1 z8 1 z12 1 z10 0.5773503 z5 0.8164966 z6 0.5773503 z4 0.8164966 z5 0.8164966 z5 0.5773503 z6 0.8164966 z4 0.5773503 z2"},
{"9.1.6", "4+9+0", 16, 14, "0.7071068 z3 0.7071068 z10 0.7071068 z3 0.7071068 z10 1 z14 1 z16 1 z14 1 z6 1 z14 1 z16 1 z14 1 z16 1 z14 1 z14 1 z14 1 z10 0.7071068 z1 0.7071068 z12 0.7071068 z1 0.7071068 z2"},
{"9.1.6", "9+10+3", 16, 24, "1 z24 1 z24 1 z24 1 z24 1 z24 1 z24 1 z24 1 z26 1 z24 1 z24 1 z24 1 z26 1 z24 1 z24 1 z24 1 z4"},
{"9.1.6", "0+7+0", 16, 8, "0.7071068 z3 0.7071068 z4 0.7071068 z3 0.7071068 z4 1 z8 1 z10 1 z8 1 1 z8 1 z10 1 z8 1 z2 1 z8 1 z12 1 z8 1 z4 1 z8 1 z2"},
{"9.1.6", "4+7+0", 16, 12, "0.7071068 z3 0.7071068 z8 0.7071068 z3 0.7071068 z8 1 z12 1 z14 1 z12 1 z4 1 z12 1 z14 1 z12 1 z14 1 z12 1 z12 1 z12 1 z8 0.7071068 z1 0.7071068 z10 0.7071068 z1 0.7071068"},
{"9.1.6", "7.1.5.4", 16, 17, "0.7071068 z3 0.7071068 z13 0.7071068 z3 0.7071068 z13 1 z17 0.7071068 z19 1 z17 1 z9 1 z17 1 z19 1 z17 1 z19 1 z17 1 z17 1 z17 1 z13 0.7071068 z1 0.7071068 z15 0.7071068 z1 0.7071068 z5"},
{"9.1.6", "3.1.2", 16, 6, "1.207107 z6 1.207107 z6 1 z6 1 z2 0.7071068 z6 0.7071068 z4 1 z6 1 z4 0.7071068 z6 0.7071068 z8 1 z6 1 z4 0.7071068 z6 0.7071068 z4 1.207107 z6 1.207107"},
{"9.1.6", "7.1.2", 16, 10, "0.7071068 z3 0.7071068 z6 0.7071068 z3 0.7071068 z6 1 z10 1 z12 1 z10 1 z2 1 z10 1 z12 1 z10 1 z12 1 z10 1 z8 0.7071068 z10 0.7071068 z8 1.207107 z10 1.207107"},
{"9+10+3", "0+1+0", 24, 1, "0.5 0.5 0.707107 z1 0.353553 0.353553 0.5 0.5 0.5 z1 0.353553 0.353553 0.5 0.5 0.707107 0.5 0.353553 0.353553 0.353553 0.353553 0.5 0.707107 0.5 0.5"},
{"9+10+3", "0+2+0", 24, 2, "1 z2 1 0.707107 0.707107 z2 0.707107 z2 0.707107 1 z2 1 0.5 0.5 z2 0.707107 z2 0.707107 1 z2 1 0.707107 0.707107 0.5 0.5 0.707107 z2 0.707107 0.707107 z2 0.707107 0.5 0.5 0.707107 0.707107 1 z2 1"},
{"9+10+3", "0+5+0", 24, 6, "0.8164966 z3 0.5773503 z2 0.8164966 z3 0.5773503 z2 1 z6 0.7071068 z6 1 z6 1 1 z6 1 z8 0.7071068 0.7071068 z3 0.7071068 z2 0.5773503 z3 0.8164966 z2 0.5773503 z3 0.8164966 1 z6 1 z6 1 z3 0.5 0.5 z2 0.5 0.5 z4 1 z6 1 0.7071068 z3 0.7071068 z2 0.7071068 z3 0.7071068 z4 0.7071068 0.7071068 z2 1 z3 1 z6 1 z4"},
{"9+10+3", "2+5+0", 24, 8, "0.8164966 z3 0.5773503 z4 0.8164966 z3 0.5773503 z4 1 z8 0.7071068 z8 1 z8 1 z2 1 z8 1 z10 0.7071068 0.7071068 z5 0.7071068 z4 0.5773503 z3 0.8164966 z4 0.5773503 z3 0.8164966 z8 1 z8 1 z6 0.7071068 0.7071068 z4 0.5 0.5 0.5 0.5 z4 1 z8 1 z6 0.7071068 z1 0.7071068 z6 0.7071068 z1 0.7071068 z4 0.7071068 0.7071068 z4 1 z5 1 z8 1 z6"},
{"9+10+3", "4+5+0", 24, 10, "0.8164966 z3 0.5773503 z6 0.8164966 z3 0.5773503 z6 1 z10 0.7071068 z10 1 z10 1 z4 1 z10 1 z12 0.7071068 0.7071068 z7 0.7071068 z6 0.5773503 z3 0.8164966 z6 0.5773503 z3 0.8164966 z10 1 z10 1 z8 0.7071068 0.7071068 z8 0.5 0.5 0.5 0.5 z8 1 z10 1 z6 0.7071068 z1 0.7071068 z8 0.7071068 z1 0.7071068 z8 0.7071068 0.7071068 z2 1 z7 1 z10 1 z8"},
{"9+10+3", "4+5+1", 24, 11, "0.8164966 z3 0.5773503 z7 0.8164966 z3 0.5773503 z7 1 z11 0.7071068 z11 1 z11 1 z5 1 z11 1 z13 0.7071068 0.7071068 z8 0.7071068 z7 0.5773503 z3 0.8164966 z7 0.5773503 z3 0.8164966 z11 1 z11 1 z9 0.7071068 0.7071068 z9 0.5 0.5 0.5 0.5 z9 1 z11 1 z7 0.7071068 z1 0.7071068 z9 0.7071068 z1 0.7071068 z9 0.7071068 0.7071068 z11 1 1 z11 1 z9"},
{"9+10+3", "3+7+0", 24, 12, "z1 0.7071068 z3 0.7071068 z8 0.7071068 z3 0.7071068 z5 1 z21 1 z8 1 z12 1 z4 1 z12 1 z16 0.7071068 0.7071068 z14 1 z5 1 z12 1 z8 1 z12 1 z10 0.7071068 0.7071068 z10 0.5773503 0.5773503 z4 0.5773503 z5 0.5773503 z5 0.8164966 z6 0.5773503 z4 0.8164966 z5 0.8164966 z5 0.5773503 z6 0.8164966 z4 0.5773503 z11 1 z2 1 z12 1 z12 1 z9"},
{"9+10+3", "4+9+0", 24, 14, "0.7071068 z3 0.7071068 z10 0.7071068 z3 0.7071068 z10 1 z14 0.7071068 z16 1 z14 1 z6 1 z14 1 z18 0.7071068 0.7071068 z9 0.7071068 z14 1 z14 1 z16 1 z14 1 z12 0.7071068 0.7071068 z12 0.5 0.5 0.5 0.5 z12 1 z14 1 z10 0.7071068 z1 0.7071068 z12 0.7071068 z1 0.7071068 z12 0.7071068 0.7071068 z4 1 z11 1 z14 1 z12"},
{"9+10+3", "0+7+0", 24, 8, "0.7071068 z3 0.7071068 z4 0.7071068 z3 0.7071068 z4 1 z8 0.7071068 z10 1 z8 1 1 z8 1 z12 0.7071068 0.7071068 z3 0.7071068 z8 1 z8 1 z2 1 z8 1 z8 1 z5 0.5 0.5 z4 0.5 0.5 z6 1 z8 1 z4 1 z8 1 z8 0.7071068 0.7071068 z2 1 z5 1 z8 1 z6"},
{"9+10+3", "4+7+0", 24, 12, "0.7071068 z3 0.7071068 z8 0.7071068 z3 0.7071068 z8 1 z12 0.7071068 z14 1 z12 1 z4 1 z12 1 z16 0.7071068 0.7071068 z7 0.7071068 z12 1 z12 1 z14 1 z12 1 z10 0.7071068 0.7071068 z10 0.5 0.5 0.5 0.5 z10 1 z12 1 z8 0.7071068 z1 0.7071068 z10 0.7071068 z1 0.7071068 z10 0.7071068 0.7071068 z2 1 z9 1 z12 1 z10"},
{"9+10+3", "7.1.5.4", 24, 17, "0.7071068 z3 0.7071068 z13 0.7071068 z3 0.7071068 z13 1 z17 0.7071068 z19 1 z17 1 z9 1 z17 1 z21 0.7071068 0.7071068 z12 0.7071068 z17 1 z17 1 z19 1 z17 1 z15 0.7071068 0.7071068 z19 1 z14 1 z17 1 z13 0.7071068 z1 0.7071068 z15 0.7071068 z1 0.7071068 z15 0.7071068 0.7071068 z7 1 z28 1 z15 1 z3"},
{"9+10+3", "3.1.2", 24, 6, "1.224745 z6 1.224745 z6 1 z6 0.7071068 z2 0.7071068 z6 0.7071068 z4 1 z6 1 z4 0.5 0.5 z7 0.7071068 z2 1.154701 z6 1.154701 z8 1 z6 1 z4 0.7071068 0.7071068 z4 0.8535534 0.8535534 z4 0.7071068 z6 0.7071068 z4 1.207107 z6 1.207107 z4 0.5 0.5 z2 1 z3 1 z6 1 z4"},
{"9+10+3", "7.1.2", 24, 10, "0.7071068 z3 0.7071068 z6 0.7071068 z3 0.7071068 z6 1 z10 0.7071068 z12 1 z10 1 z2 1 z10 1 z14 0.7071068 0.7071068 z5 0.7071068 z10 1 z10 1 z12 1 z10 1 z8 0.7071068 0.7071068 z8 0.8535534 0.8535534 z8 0.7071068 z10 0.7071068 z8 1.207107 z10 1.207107 z8 0.5 0.5 z2 1 z7 1 z10 1 z8"},
{"9+10+3", "9.1.6", 24, 16, "1 z16 1 z16 1 z16 1 z16 1 z16 1 z16 1 z16 1 z12 0.7071068 0.7071068 z13 0.7071068 z20 1 z16 1 z16 1 z16 1 z10 0.7071068 0.7071068 z18 0.5 0.5 0.5 0.5 z14 1 z16 1 z16 1 z16 1 z12 0.7071068 0.7071068 z4 1 z19 1 z16 1 z8"},
{"7.1.5.4", "0+1+0", 17, 1, "0.5 0.5 0.707107 z1 0.707107 0.707107 0.707107 0.707107 0.707107 0.707107 0.707107 0.707107 0.707107 0.707107 0.707107 0.707107 0.707107"},
{"7.1.5.4", "0+2+0", 17, 2, "1 z2 1 0.707107 0.707107 z2 0.707107 0.707107 0.707107 0.707107 0.707107 0.707107 0.707107 0.707107 0.707107 0.707107 0.707107 0.707107 0.707107 0.707107 0.707107 0.707107 0.707107 0.707107 0.707107 0.707107 0.707107 0.707107 0.707107 0.707107 0.707107 0.707107"},
{"7.1.5.4", "0+5+0", 17, 6, "1 z6 1 z6 1 z6 1 z4 1 z5 1 z5 1 z5 1 z5 1 z5 1 z5 1 z5 1 z5 1 z5 1 z5 1 z5 1 z5 1 z3"},
{"7.1.5.4", "2+5+0", 17, 8, "1 z8 1 z8 1 z8 1 z6 1 z7 1 z7 1 z7 1 z7 1 z7 1 z7 1 z7 1 z7 1 z7 1 z7 1 z7 1 z7 1 z5"},
{"7.1.5.4", "4+5+0", 17, 10, "1 z10 1 z10 1 z10 1 z8 1 z9 1 z9 1 z9 1 z9 1 z9 1 z9 1 z9 1 z9 1 z9 1 z9 1 z9 1 z9 1 z7"},
{"7.1.5.4", "4+5+1", 17, 11, "1 z11 1 z11 1 z11 1 z9 1 z10 1 z10 1 z10 1 z10 1 z10 1 z10 1 z10 1 z10 1 z10 1 z10 1 z10 1 z10 1 z8"},
{"7.1.5.4", "3+7+0", 17, 12, "z1 1 z12 1 z9 1 z21 1 z6 1 z12 1 z12 1 z12 1 z6 1 z12 1 z7 1 z11 1 z11 1 z11 1 z11 1 z11 1 z11 1 z11"},
{"7.1.5.4", "4+9+0", 17, 14, "1 z14 1 z14 1 z14 1 z14 1 z14 1 z14 1 z14 1 z14 1 z14 1 z14 1 z14 1 z4 1 z13 1 z13 1 z13 1 z13 1 z11"},
{"7.1.5.4", "9+10+3", 17, 24, "z6 1 z24 1 z18 1 z24 1 z30 1 z24 1 z16 1 z24 1 z30 1 z24 1 z26 1 z24 1 z21 1 z30 1 z24 1 z2 1 z23 1 z21"},
{"7.1.5.4", "0+7+0", 17, 8, "1 z8 1 z8 1 z8 1 z8 1 z8 1 z8 1 z8 1 z2 1 z7 1 z7 1 z7 1 z7 1 z7 1 z7 1 z7 1 z7 1 z5"},
{"7.1.5.4", "4+7+0", 17, 12, "1 z12 1 z12 1 z12 1 z12 1 z12 1 z12 1 z12 1 z12 1 z12 1 z12 1 z12 1 z2 1 z11 1 z11 1 z11 1 z11 1 z9"},
{"7.1.5.4", "3.1.2", 17, 6, "1 z6 1 z6 1 z6 1 z4 1 z5 1 z5 1 z5 1 z5 1 z5 1 z5 1 z5 1 z5 1 z5 1 z5 1 z5 1 z5 1 z3"},
{"7.1.5.4", "7.1.2", 17, 10, "1 z10 1 z10 1 z10 1 z10 1 z10 1 z10 1 z10 1 z10 1 z10 1 z8 0.7071068 z10 0.7071068 z2 1 z9 1 z9 1 z9 1 z9 1 z7"},
{"7.1.5.4", "9.1.6", 17, 16, "z6 1 z16 1 z10 1 z16 1 z20 1 z16 1 z10 1 z16 1 z20 1 z16 1 z16 1 z16 1 z12 0.5 0.5 0.5 0.5 z8 1 z16 1 z10 1 z15 1 z13"},
{"A0", "0+1+0", 1, 1, "1"},
{"A0", "0+2+0", 1, 2, "0.707101 0.707113"},
{"A0", "0+5+0", 1, 6, "0.326336 0.326338 0.215132 z1 0.608578 0.608572"},
{"A0", "2+5+0", 1, 8, "0.215451 0.215462 0.144966 z1 0.645327 0.645319 0.163193 0.163175"},
{"A0", "4+5+0", 1, 10, "0.258913 0.258925 0.171792 z1 0.555829 0.555813 0.196782 0.19676 0.265605 0.265615"},
{"A0", "4+5+1", 1, 11, "0.13751 0.137521 0.0571417 z1 0.583945 0.58393 0.195938 0.195916 0.264465 0.264476 0.245526"},
{"A0", "3+7+0", 1, 12, "0.22199 0.24225 0.242265 0.257504 0.257498 0.3609 0.360888 0.368969 0.368955 0.409847 z2"},
{"A0", "4+9+0", 1, 14, "0.219735 0.219766 0.168387 z1 0.31931 0.319313 0.375908 0.375881 0.297714 0.297693 0.298113 0.29812 0.129546 0.129493"},
{"A0", "9+10+3", 1, 24, "0.0962044 0.0962112 0.0576865 z1 0.343024 0.34302 0.0976267 0.0976308 0.34302 z1 0.313307 0.313315 0.129865 0.129831 0.145356 0.319076 0.141621 0.141596 0.143476 0.143478 0.141605 0.235165 0.219657 0.219635"},
{"A0", "0+7+0", 1, 8, "0.33865 0.338654 0.263757 z1 0.375468 0.375459 0.457785 0.457766"},
{"A0", "4+7+0", 1, 12, "0.250737 0.250753 0.229767 z1 0.318847 0.31885 0.373974 0.373947 0.290638 0.290621 0.291122 0.291128"},
{"A0", "7.1.5.4", 1, 17, "0.0835465 0.0835616 0.147028 z1 0.18978 0.189807 0.196224 0.19618 0.263788 0.263766 0.264367 0.264374 0.239986 0.345675 0.345704 0.346307 0.346299"},
{"A0", "3.1.2", 1, 6, "0.671767 0.671772 0.144966 z1 0.163193 0.163175"},
{"A0", "7.1.2", 1, 10, "0.250737 0.250753 0.229767 z1 0.318847 0.31885 0.373974 0.373947 0.496492 0.49648"},
{"A0", "9.1.6", 1, 16, "0.0962044 0.0962112 0.292851 z1 0.585576 0.585572 0.420065 0.420047 0.313307 0.313315 0.289403 0.289369 0.401289 0.401264 0.143476 0.143478"},
{"A1", "0+1+0", 4, 1, "0.623758 3.94855e-06 -1.9573e-07 0.0740278"},
{"A1", "0+2+0", 4, 2, "0.623753 0.623763 0.572104 -0.572096 -8.58323e-07 4.66863e-07 0.0740141 0.0740416"},
{"A1", "0+5+0", 4, 6, "0.250622 0.250624 0.165218 z1 0.46738 0.467375 0.310683 -0.310686 9.15557e-06 z1 0.451128 -0.451105 1.70906e-05 9.90912e-06 -4.07281e-05 z1 -4.40137e-06 1.07376e-05 0.307552 0.307564 0.265464 z1 -0.430613 -0.43063"},
{"A1", "2+5+0", 4, 8, "0.160841 0.160849 0.108222 z1 0.481757 0.481751 0.121829 0.121815 0.228393 -0.228399 1.23793e-05 z1 0.466865 -0.466842 0.104337 -0.104328 -0.195227 -0.195238 -0.140757 z1 0.00906085 0.00907453 0.237361 0.237362 0.212772 0.212798 0.203192 z1 -0.434708 -0.434727 0.15393 0.153897"},
{"A1", "4+5+0", 4, 10, "0.171635 0.171643 0.113882 z1 0.368461 0.368451 0.130448 0.130433 0.17607 0.176077 0.246698 -0.246702 1.30268e-05 z1 0.369873 -0.369846 0.115595 -0.115583 0.159994 -0.16 -0.203594 -0.203605 -0.148118 z1 -0.291803 -0.29179 0.252176 0.252177 0.348214 0.348218 0.225695 0.225723 0.213819 z1 -0.412794 -0.412805 0.163616 0.163581 -0.104081 -0.104093"},
{"A1", "4+5+1", 4, 11, "0.0918824 0.0918895 0.0381813 z1 0.390184 0.390174 0.130924 0.130909 0.176712 0.176719 0.164058 0.187559 -0.187561 1.84869e-05 z1 0.402044 -0.40203 0.116016 -0.116005 0.160578 -0.160583 -7.22175e-06 -0.0201393 -0.0201536 0.0107085 z1 -0.332105 -0.332101 0.253096 0.253096 0.349484 0.349488 -0.326164 0.154187 0.154209 0.109049 z1 -0.387581 -0.387595 0.164213 0.164178 -0.104461 -0.104473 0.2292"},
{"A1", "3+7+0", 4, 12, "0.138206 0.15082 0.150829 0.160317 0.160313 0.224689 0.224682 0.229713 0.229704 0.255163 z2 6.02514e-06 0.170413 -0.170424 0.178966 -0.178937 0.423618 -0.42361 0.19242 -0.192402 -1.10119e-05 z2 -0.161554 -0.218356 -0.218387 0.305316 0.305328 -0.159945 -0.159942 -0.252722 -0.252709 0.502514 z2 0.242264 0.200436 0.200436 0.177827 0.177815 0.0013576 0.00135153 -0.376625 -0.376622 -0.238329 z2"},
{"A1", "4+9+0", 4, 14, "0.133943 0.133962 0.102643 z1 0.194641 0.194643 0.229141 0.229125 0.181477 0.181464 0.18172 0.181724 0.0789673 0.0789349 0.164268 -0.164296 -9.16058e-06 z1 0.370768 -0.370776 0.188658 -0.188632 0.177426 -0.177391 0.16973 -0.169748 0.0267507 -0.026703 -0.197953 -0.197956 -0.121547 z1 -0.210263 -0.210247 -0.258353 -0.258348 0.349753 0.349751 0.350541 0.350539 -0.143794 -0.143806 0.163059 0.163089 0.161758 z1 0.0336276 0.033601 -0.381134 -0.381118 0.177864 0.177856 -0.178143 -0.17814 0.093606 0.0935248"},
{"A1", "9+10+3", 4, 24, "0.0563451 0.0563491 0.0337859 z1 0.200903 0.200901 0.0571781 0.0571805 0.200901 z1 0.183498 0.183503 0.0760596 0.0760395 0.0851322 0.186877 0.082945 0.0829301 0.084031 0.0840325 0.0829353 0.137731 0.128649 0.128636 0.142441 -0.142445 1.7793e-05 z1 0.253871 -0.253879 0.0750655 -0.0750694 -1.33248e-05 z1 0.313145 -0.31317 0.119539 -0.119531 1.65124e-05 2.14091e-05 0.131434 -0.131423 0.18938 -0.189381 1.07353e-05 -7.40789e-06 0.113602 -0.113578 0.000440517 0.000424452 -3.09891e-05 z1 -0.257112 -0.257092 3.79086e-06 2.03476e-05 -0.257084 z1 -0.262363 -0.26235 0.129523 0.129488 0.136631 0.473683 0.135361 0.135324 0.135987 0.135987 0.135337 -0.271046 -0.263895 -0.263913 0.0746074 0.0746228 0.0984183 z1 -0.253874 -0.25388 0.144848 0.144848 -0.359039 z1 -0.0199859 -0.0199839 0.119553 0.119516 0.192893 -8.70734e-06 -0.131451 -0.131443 -9.79191e-05 -0.000104034 -0.185879 0.184505 0.113629 0.113581"},
{"A1", "0+7+0", 4, 8, "0.250471 0.250474 0.195079 z1 0.277703 0.277696 0.338586 0.338572 0.251707 -0.251704 1.30516e-05 z1 0.440005 -0.44 0.259491 -0.259481 3.45309e-05 -9.18024e-06 -4.30111e-05 z1 -1.83459e-05 -2.99178e-07 -8.06274e-06 -1.69746e-05 0.300186 0.300196 0.270282 z1 0.0498125 0.0497927 -0.475436 -0.475433"},
{"A1", "4+7+0", 4, 12, "0.15325 0.153259 0.140433 z1 0.194879 0.19488 0.228572 0.228556 0.177637 0.177627 0.177933 0.177937 0.173159 -0.173169 6.12222e-06 z1 0.362255 -0.362266 0.184274 -0.184251 0.173665 -0.173631 0.166193 -0.166211 -0.221874 -0.221906 -0.164157 z1 -0.217027 -0.217011 -0.263877 -0.263872 0.342431 0.342431 0.343235 0.343234 0.203665 0.203666 0.246167 z1 0.0329936 0.0329676 -0.372344 -0.372328 0.174005 0.174005 -0.17443 -0.174428"},
{"A1", "7.1.5.4", 4, 17, "0.0477397 0.0477484 0.084014 z1 0.108443 0.108459 0.112125 0.1121 0.150732 0.15072 0.151063 0.151067 0.137132 0.197524 0.197541 0.197885 0.19788 0.0905779 -0.0905882 -1.97079e-06 z1 0.290783 -0.290818 0.106155 -0.106097 0.20253 -0.20248 0.194221 -0.194229 -1.00759e-05 -0.193067 0.193099 0.184836 -0.184837 -5.01741e-06 -4.68036e-06 1.43163e-05 z1 -4.44673e-06 -3.30084e-06 6.38695e-07 -1.32355e-06 0.25687 0.256867 0.257767 0.257765 0.358194 -0.380813 -0.380801 -0.381719 -0.381694 0.101674 0.101694 0.231168 z1 0.0150714 0.0150553 -0.271752 -0.271725 0.202907 0.202907 -0.203368 -0.203368 -1.5291e-05 0.193482 0.19351 -0.19398 -0.193982"},
{"A1", "3.1.2", 4, 6, "0.501495 0.501499 0.108222 z1 0.121829 0.121815 0.558516 -0.558506 1.23793e-05 z1 0.104337 -0.104328 -0.18882 -0.188821 -0.140757 z1 0.237361 0.237362 -0.0946129 -0.0946002 0.203192 z1 0.15393 0.153897"},
{"A1", "7.1.2", 4, 10, "0.15325 0.153259 0.140433 z1 0.194879 0.19488 0.228572 0.228556 0.303455 0.303447 0.173159 -0.173169 6.12222e-06 z1 0.362255 -0.362266 0.184274 -0.184251 0.291181 -0.29116 -0.221874 -0.221906 -0.164157 z1 -0.217027 -0.217011 -0.263877 -0.263872 0.585135 0.585134 0.203665 0.203666 0.246167 z1 0.0329936 0.0329676 -0.372344 -0.372328 0.0506645 0.0506657"},
{"A1", "9.1.6", 4, 16, "0.0563451 0.0563491 0.171517 z1 0.342961 0.342959 0.246024 0.246014 0.183498 0.183503 0.169498 0.169478 0.235028 0.235013 0.084031 0.0840325 0.142441 -0.142445 1.03851e-05 z1 0.253862 -0.253889 0.18868 -0.188636 0.313145 -0.31317 0.11955 -0.11952 0.131453 -0.131404 0.18938 -0.189381 0.000440517 0.000424452 -0.271077 z1 -0.438897 -0.438878 -0.167279 -0.167281 -0.262363 -0.26235 0.366365 0.366329 0.467901 0.467863 0.135987 0.135987 0.0746074 0.0746228 0.282923 z1 -0.507753 -0.507759 0.394873 0.394825 -0.0199859 -0.0199839 0.119548 0.119512 -0.262891 -0.262883 -9.79191e-05 -0.000104034"},
{"A2", "0+1+0", 9, 1, "0.611864 3.87325e-06 -1.91998e-07 0.0726162 4.09566e-06 8.21893e-06 0.0924007 7.94167e-07 0.158538"},
{"A2", "0+2+0", 9, 2, "0.611859 0.611869 0.561194 -0.561187 -8.41956e-07 4.5796e-07 0.0726028 0.0726297 0.246502 -0.246494 2.35064e-06 1.40872e-05 0.092404 0.0923975 -1.44148e-07 1.73248e-06 0.158529 0.158548"},
{"A2", "0+5+0", 9, 6, "0.238781 0.238783 0.157413 z1 0.445299 0.445295 0.296005 -0.296008 8.72302e-06 z1 0.429815 -0.429793 1.62832e-05 9.44098e-06 -3.8804e-05 z1 -4.19344e-06 1.02303e-05 0.293022 0.293034 0.252922 z1 -0.410269 -0.410285 0.378037 -0.378036 3.62084e-05 z1 -0.101075 0.101085 4.66759e-06 1.39363e-05 -1.34767e-05 z1 2.54769e-06 1.61423e-06 0.124384 0.124405 0.162862 z1 0.0873886 0.0873728 2.62365e-05 2.06628e-05 -4.44126e-06 z1 -1.57986e-06 9.75122e-06 -0.0383109 -0.0382963 0.259551 z1 -0.077367 -0.0773865"},
{"A2", "2+5+0", 9, 8, "0.151598 0.151606 0.102003 z1 0.454071 0.454066 0.114827 0.114815 0.215268 -0.215274 1.16679e-05 z1 0.440035 -0.440013 0.0983413 -0.0983321 -0.184008 -0.184018 -0.132668 z1 0.00854015 0.00855303 0.22372 0.223721 0.200545 0.200569 0.191515 z1 -0.409727 -0.409744 0.145084 0.145053 0.283085 -0.283095 3.22324e-05 z1 -0.0936553 0.0936608 0.125128 -0.125102 -0.130927 0.130948 -9.39024e-06 z1 0.00492428 -0.00492139 0.1421 -0.142106 -0.00262946 -0.00263063 0.0359275 z1 0.0913602 0.0913448 0.127586 0.127622 -0.154143 -0.154153 -0.119193 z1 0.00400475 0.00401493 0.219517 0.21952 -0.0380116 -0.037979 0.213324 z1 -0.0849272 -0.0849452 0.0373507 0.0373162"},
{"A2", "4+5+0", 9, 10, "0.155893 0.1559 0.103437 z1 0.334667 0.334658 0.118484 0.11847 0.159922 0.159928 0.224072 -0.224076 1.1832e-05 z1 0.33595 -0.335925 0.104993 -0.104982 0.14532 -0.145325 -0.184921 -0.184931 -0.134533 z1 -0.26504 -0.265028 0.229047 0.229048 0.316277 0.316281 0.204995 0.20502 0.194208 z1 -0.374934 -0.374944 0.14861 0.148578 -0.0945353 -0.0945459 0.290947 -0.290956 3.26857e-05 z1 -0.0906405 0.0906382 0.130303 -0.130275 -0.0243104 0.0243207 -0.12853 0.128552 -9.5223e-06 z1 -0.176442 0.176443 0.149444 -0.149448 0.213807 -0.213805 -0.00678351 -0.00678358 0.0364328 z1 -0.126359 -0.126363 0.126405 0.126443 0.186508 0.186493 -0.155088 -0.155098 -0.120869 z1 0.0875018 0.0875159 0.224127 0.22413 -0.152871 -0.152876 -0.0449062 -0.0448707 0.216324 z1 -0.0163973 -0.0163961 0.0322718 0.0322378 -0.0680379 -0.0680666"},
{"A2", "4+5+1", 9, 11, "0.0832446 0.0832511 0.0345919 z1 0.353503 0.353494 0.118615 0.118602 0.1601 0.160106 0.148635 0.169927 -0.169928 1.67489e-05 z1 0.364248 -0.364236 0.10511 -0.105099 0.145482 -0.145487 -6.54284e-06 -0.018246 -0.0182589 0.00970176 z1 -0.300884 -0.300881 0.229302 0.229303 0.316629 0.316633 -0.295501 0.139692 0.139712 0.098797 z1 -0.351145 -0.351158 0.148775 0.148744 -0.0946405 -0.0946511 0.207653 0.229755 -0.229774 4.30972e-05 z1 -0.0510333 0.0510247 0.130448 -0.13042 -0.0243374 0.0243478 5.14959e-06 -0.0293705 0.0293929 -2.54531e-06 z1 -0.222055 0.222088 0.14961 -0.149614 0.214045 -0.214043 7.39057e-06 -0.159522 -0.159517 -0.0734629 z1 -0.107705 -0.107692 0.126546 0.126583 0.186716 0.186701 0.177725 -0.0301861 -0.0302001 0.0252815 z1 0.0508347 0.050838 0.224377 0.224379 -0.153041 -0.153046 -0.318728 -0.0407335 -0.0407097 0.129719 z1 -0.013719 -0.0137248 0.0323078 0.0322737 -0.0681136 -0.0681424 0.108034"},
{"A2", "3+7+0", 9, 12, "0.119598 0.130513 0.130521 0.138732 0.138728 0.194436 0.19443 0.198784 0.198776 0.220807 z2 5.2139e-06 0.147468 -0.147477 0.154869 -0.154845 0.36658 -0.366574 0.166512 -0.166496 -9.5292e-06 z2 -0.139802 -0.188956 -0.188983 0.264207 0.264218 -0.13841 -0.138407 -0.218694 -0.218683 0.434854 z2 0.209645 0.173449 0.173449 0.153884 0.153873 0.00117481 0.00116956 -0.325915 -0.325912 -0.20624 z2 7.81221e-06 0.247555 -0.24756 0.132828 -0.132782 0.0018076 -0.00180885 -0.267649 0.267633 -9.61099e-06 z2 -2.19967e-05 -0.112115 0.11212 0.236768 -0.236752 -0.0628823 0.0628888 -0.100953 0.100955 -3.57956e-07 z2 0.0326508 0.0387594 0.0387994 0.134809 0.134835 -0.0101595 -0.0101806 -0.0264082 -0.0264184 0.254441 z2 -0.0764816 -0.138039 -0.138064 0.222865 0.222881 -0.0661303 -0.0661122 0.164761 0.164752 -0.300795 z2 0.244534 0.0349505 0.0349348 0.0109857 0.010969 -0.356247 -0.356257 0.186029 0.186047 -0.00291279 z2"},
{"A2", "4+9+0", 9, 14, "0.114597 0.114613 0.0878176 z1 0.166527 0.166529 0.196044 0.19603 0.155265 0.155254 0.155473 0.155476 0.0675614 0.0675336 0.140541 -0.140565 -7.83743e-06 z1 0.317214 -0.317222 0.161408 -0.161386 0.151799 -0.151768 0.145215 -0.14523 0.0228868 -0.0228461 -0.169361 -0.169363 -0.103991 z1 -0.179893 -0.179879 -0.221037 -0.221032 0.299235 0.299233 0.299909 0.299907 -0.123024 -0.123034 0.139507 0.139533 0.138394 z1 0.0287705 0.0287477 -0.326083 -0.32607 0.152173 0.152167 -0.152412 -0.15241 0.0800856 0.0800162 0.226915 -0.226953 -1.36261e-05 z1 0.0495676 -0.0495281 -0.254581 0.254566 0.140211 -0.140174 -0.123752 0.123745 0.0562366 -0.0561569 -0.108935 0.10892 -2.07459e-05 z1 -0.155496 0.155473 -0.114946 0.114951 0.216324 -0.2163 0.210947 -0.21095 -0.0143608 0.0143479 0.04197 0.0419792 0.0496908 z1 -0.0201033 -0.0201306 -0.0359323 -0.0359292 0.161198 0.161224 0.161553 0.161539 0.082719 0.0827543 -0.112363 -0.112348 -0.0194112 z1 -0.0267687 -0.0267636 0.183758 0.183759 0.216493 0.21652 -0.217949 -0.217952 -0.0663142 -0.0663281 -0.00725055 -0.00724882 0.166976 z1 -0.327369 -0.327375 0.18599 0.186016 0.000672164 0.000653666 0.000320099 0.00029126 0.0833497 0.0832936"},
{"A2", "9+10+3", 9, 24, "0.0452722 0.0452753 0.0271463 z1 0.161421 0.16142 0.0459415 0.0459434 0.161419 z1 0.147437 0.147441 0.0611123 0.0610962 0.068402 0.150152 0.0666446 0.0666326 0.0675172 0.0675184 0.0666368 0.110664 0.103367 0.103356 0.114448 -0.114451 1.42963e-05 z1 0.20398 -0.203987 0.0603136 -0.0603168 -1.07062e-05 z1 0.251606 -0.251626 0.0960475 -0.0960404 1.32674e-05 1.72018e-05 0.105605 -0.105596 0.152163 -0.152164 8.62561e-06 -5.95209e-06 0.0912771 -0.091258 0.000353946 0.000341038 -2.48991e-05 z1 -0.206584 -0.206568 3.04588e-06 1.63489e-05 -0.206562 z1 -0.210804 -0.210793 0.104069 0.104041 0.10978 0.380595 0.10876 0.10873 0.109263 0.109262 0.108741 -0.21778 -0.212035 -0.212049 0.0599456 0.0599579 0.0790771 z1 -0.203982 -0.203987 0.116383 0.116383 -0.288481 z1 -0.0160582 -0.0160566 0.0960582 0.0960288 0.154985 -6.99617e-06 -0.105618 -0.105612 -7.8676e-05 -8.35889e-05 -0.14935 0.148246 0.0912986 0.0912597 0.139697 -0.139716 3.70603e-05 z1 -0.318974 0.318978 0.140724 -0.140725 9.66961e-06 z1 -0.0398175 0.0398013 0.140586 -0.140569 2.25538e-05 6.37186e-06 -0.150685 0.150684 0.000336444 -0.000323238 -1.55479e-05 -7.55921e-06 0.135304 -0.135251 0.000973069 -0.000948294 -8.16075e-07 z1 -0.122757 0.122758 -3.08459e-06 -1.40374e-05 3.90487e-06 z1 -0.184558 0.184551 0.143835 -0.143812 2.18006e-05 3.07363e-05 0.151542 -0.151508 0.215966 -0.215952 1.48153e-05 8.28798e-06 -0.133555 0.133562 -0.0950451 -0.0950604 -0.0620921 z1 0.0196057 0.0195881 -0.0965518 -0.0965428 0.0195933 z1 0.0487506 0.0487269 0.0164851 0.0164698 0.00265392 0.442131 0.00644221 0.00640693 0.00454627 0.00454658 0.00642477 0.130861 0.144614 0.14469 0.00017412 0.000155551 -6.44091e-05 z1 0.122747 0.122732 7.84037e-06 3.56279e-05 0.17357 z1 -0.00319208 -0.00318148 0.143844 0.143827 0.217606 -8.34851e-06 -0.151547 -0.151547 -0.000194411 -0.000192269 -0.214297 -0.20309 -0.13358 -0.13357 -0.0964195 -0.0964019 0.107555 z1 -1.30469e-06 8.84552e-06 0.0989927 0.0989824 0.318986 z1 -0.282121 -0.282134 1.88606e-05 -3.24016e-05 0.160126 2.11432e-06 2.2357e-05 1.3406e-05 -0.155401 -0.155408 0.150689 0.154857 2.37599e-05 5.60849e-07"},
{"A2", "0+7+0", 9, 8, "0.220937 0.220939 0.172076 z1 0.244957 0.244951 0.298661 0.298648 0.222026 -0.222024 1.15126e-05 z1 0.388121 -0.388116 0.228893 -0.228884 3.04591e-05 -8.09774e-06 -3.79394e-05 z1 -1.61826e-05 -2.639e-07 -7.11201e-06 -1.4973e-05 0.264789 0.264798 0.238411 z1 0.0439388 0.0439213 -0.419374 -0.419371 0.35726 -0.357256 3.42697e-05 z1 0.0705829 -0.07055 -0.338029 0.338035 1.98002e-06 2.28619e-05 -2.28462e-05 z1 -7.90414e-06 -9.68146e-06 -1.22967e-06 2.56208e-05 0.158397 0.158418 0.183381 z1 0.145407 0.145416 0.12713 0.127095 1.92029e-05 8.66238e-06 -1.9359e-05 z1 -1.28291e-05 1.39441e-05 7.00346e-06 -5.24845e-06 0.0531769 0.0531964 0.269336 z1 -0.386614 -0.386623 0.200395 0.200407"},
{"A2", "4+7+0", 9, 12, "0.131381 0.131389 0.120393 z1 0.167069 0.167071 0.195954 0.19594 0.152288 0.152279 0.152542 0.152545 0.148449 -0.148458 5.24857e-06 z1 0.310561 -0.310571 0.157978 -0.157958 0.148883 -0.148854 0.142477 -0.142492 -0.190213 -0.190239 -0.140731 z1 -0.186057 -0.186044 -0.226222 -0.226217 0.293566 0.293566 0.294255 0.294254 0.174602 0.174602 0.211039 z1 0.0282854 0.0282631 -0.31921 -0.319196 0.149175 0.149174 -0.149539 -0.149537 0.249201 -0.249207 7.86416e-06 z1 0.048558 -0.048522 -0.249383 0.249365 0.137441 -0.137405 -0.121419 0.121413 -0.112861 0.112866 -2.2143e-05 z1 -0.151114 0.151097 -0.111942 0.111952 0.212214 -0.212192 0.206971 -0.206973 0.0390171 0.0390574 0.0328679 z1 -0.00796156 -0.00798826 -0.0237576 -0.0237547 0.158266 0.158289 0.158507 0.158493 -0.138957 -0.138982 -0.0769902 z1 -0.0264001 -0.0263954 0.178661 0.178663 0.212341 0.212374 -0.21384 -0.213844 0.0351829 0.0351671 0.24616 z1 -0.321143 -0.321149 0.181921 0.181947 0.000532551 0.000522608 0.000314064 0.000285769"},
{"A2", "7.1.5.4", 9, 17, "0.0385546 0.0385616 0.0678496 z1 0.0875788 0.0875911 0.0905522 0.090532 0.121731 0.121721 0.121999 0.122002 0.110747 0.15952 0.159534 0.159812 0.159808 0.0731506 -0.073159 -1.59161e-06 z1 0.234836 -0.234864 0.0857304 -0.0856842 0.163563 -0.163523 0.156853 -0.15686 -8.13732e-06 -0.155921 0.155947 0.149273 -0.149274 -4.05206e-06 -3.77986e-06 1.15619e-05 z1 -3.59117e-06 -2.66576e-06 5.15809e-07 -1.0689e-06 0.207448 0.207446 0.208173 0.208171 0.289277 -0.307544 -0.307535 -0.308276 -0.308255 0.0821119 0.082128 0.186691 z1 0.0121716 0.0121587 -0.219467 -0.219445 0.163867 0.163867 -0.16424 -0.16424 -1.2349e-05 0.156256 0.156279 -0.156658 -0.15666 0.139357 -0.139366 -8.26517e-07 z1 0.0260982 -0.0260668 -0.160322 0.160281 0.148191 -0.148158 -0.131412 0.1314 6.00493e-06 -0.143954 0.143963 -0.127187 0.127193 -1.7312e-05 2.78699e-06 -9.08046e-07 z1 -7.85949e-06 5.04292e-06 2.8992e-07 -6.41236e-06 0.239557 -0.239512 0.234064 -0.234047 -1.7411e-05 0.222284 -0.222294 -0.216829 0.216817 -0.0878942 -0.0879148 -0.127657 z1 -0.172498 -0.172532 -0.185975 -0.185932 0.0369682 0.0369901 0.0372204 0.0372055 0.360247 0.165864 0.165795 0.166054 0.16602 1.55823e-06 -9.62109e-06 2.17799e-05 z1 1.69924e-05 -3.88323e-06 3.03172e-07 6.31731e-06 0.239685 0.23972 -0.241239 -0.241246 -2.17331e-05 -0.222461 -0.222458 0.224028 0.224025 0.0167028 0.0167156 0.227167 z1 -0.258622 -0.258633 0.166478 0.166539 0.000556459 0.000546422 0.000332417 0.000303704 -4.84258e-06 0.000556781 0.000569138 0.000309442 0.000288868"},
{"A2", "3.1.2", 9, 6, "0.472675 0.472679 0.102003 z1 0.114827 0.114815 0.52642 -0.52641 1.16679e-05 z1 0.0983413 -0.0983321 -0.177969 -0.17797 -0.132668 z1 0.22372 0.223721 -0.0891757 -0.0891637 0.191515 z1 0.145084 0.145053 0.216861 -0.216867 3.22324e-05 z1 0.125128 -0.125102 -0.127445 0.127468 -9.39024e-06 z1 0.1421 -0.142106 0.0619719 0.0619599 0.0359275 z1 0.127586 0.127622 -0.151311 -0.151314 -0.119193 z1 0.219517 0.21952 -0.0980642 -0.0980443 0.213324 z1 0.0373507 0.0373162"},
{"A2", "7.1.2", 9, 10, "0.131381 0.131389 0.120393 z1 0.167069 0.167071 0.195954 0.19594 0.260152 0.260145 0.148449 -0.148458 5.24857e-06 z1 0.310561 -0.310571 0.157978 -0.157958 0.249629 -0.249611 -0.190213 -0.190239 -0.140731 z1 -0.186057 -0.186044 -0.226222 -0.226217 0.501636 0.501635 0.174602 0.174602 0.211039 z1 0.0282854 0.0282631 -0.31921 -0.319196 0.0434347 0.0434357 0.249201 -0.249207 7.86416e-06 z1 0.048558 -0.048522 -0.249383 0.249365 0.0515843 -0.0515531 -0.112861 0.112866 -2.2143e-05 z1 -0.151114 0.151097 -0.111942 0.111952 0.358564 -0.358545 0.0390171 0.0390574 0.0328679 z1 -0.00796156 -0.00798826 -0.0237576 -0.0237547 0.270348 0.27036 -0.138957 -0.138982 -0.0769902 z1 -0.0264001 -0.0263954 0.178661 0.178663 0.0611336 0.0611634 0.0351829 0.0351671 0.24616 z1 -0.321143 -0.321149 0.181921 0.181947 0.000754628 0.000724678"},
{"A2", "9.1.6", 9, 16, "0.0452722 0.0452753 0.137811 z1 0.275562 0.27556 0.197676 0.197667 0.147437 0.147441 0.136188 0.136172 0.18884 0.188828 0.0675172 0.0675184 0.114448 -0.114451 8.34424e-06 z1 0.203973 -0.203994 0.1516 -0.151565 0.251606 -0.251626 0.0960561 -0.0960318 0.10562 -0.105581 0.152163 -0.152164 0.000353946 0.000341038 -0.217805 z1 -0.352645 -0.35263 -0.134405 -0.134407 -0.210804 -0.210793 0.294366 0.294338 0.375949 0.375918 0.109263 0.109262 0.0599456 0.0599579 0.227323 z1 -0.407969 -0.407974 0.317272 0.317234 -0.0160582 -0.0160566 0.0960547 0.0960253 -0.211228 -0.211221 -7.8676e-05 -8.35889e-05 0.139697 -0.139716 2.95011e-05 z1 -0.318967 0.318985 0.276044 -0.27596 -0.0398175 0.0398013 0.140589 -0.140565 -0.150693 0.150677 0.000336444 -0.000323238 0.000973069 -0.000948294 7.47191e-06 z1 -0.122755 0.122761 -0.133543 0.133564 -0.184558 0.184551 0.14385 -0.143796 0.151567 -0.151482 0.215966 -0.215952 -0.0950451 -0.0950604 0.0687691 z1 0.0334602 0.0334427 0.0499384 0.0500234 0.0487506 0.0487269 0.237551 0.237535 0.232051 0.232015 0.00454627 0.00454658 0.00017412 0.000155551 -0.203154 z1 0.24548 0.245465 0.0202992 0.0203367 -0.00319208 -0.00318148 0.14384 0.143823 -0.303082 -0.303082 -0.000194411 -0.000192269 -0.0964195 -0.0964019 0.262412 z1 0.225556 0.225566 0.212243 0.212209 -0.282121 -0.282134 1.99178e-05 -3.13445e-05 0.106577 0.106568 -0.155401 -0.155408"},
{"A3", "0+1+0", 16, 1, "0.610512 3.8647e-06 -1.91573e-07 0.0724558 4.08661e-06 8.20077e-06 0.0921966 7.92413e-07 0.158188 5.33116e-06 3.17889e-07 -1.05779e-05 -8.21749e-06 0.039654 -1.52839e-05 0.0495221"},
{"A3", "0+2+0", 16, 2, "0.610507 0.610517 0.559955 -0.559947 -8.40096e-07 4.56949e-07 0.0724424 0.0724692 0.245957 -0.245949 2.34545e-06 1.40561e-05 0.0921998 0.0921933 -1.43829e-07 1.72865e-06 0.158179 0.158198 0.105907 -0.105896 -9.212e-06 9.84778e-06 0.0144451 -0.0144663 6.21298e-06 -2.2648e-05 0.0396432 0.0396647 -1.75258e-05 -1.3042e-05 0.0495199 0.0495243"},
{"A3", "0+5+0", 16, 6, "0.233808 0.23381 0.154134 z1 0.436024 0.43602 0.28984 -0.289842 8.54134e-06 z1 0.420863 -0.420841 1.5944e-05 9.24434e-06 -3.79958e-05 z1 -4.10609e-06 1.00172e-05 0.286919 0.28693 0.247654 z1 -0.401724 -0.40174 0.370163 -0.370163 3.54543e-05 z1 -0.0989701 0.0989795 4.57037e-06 1.3646e-05 -1.3196e-05 z1 2.49463e-06 1.58061e-06 0.121793 0.121814 0.159469 z1 0.0855684 0.0855529 2.569e-05 2.02324e-05 -4.34876e-06 z1 -1.54696e-06 9.54812e-06 -0.037513 -0.0374987 0.254145 z1 -0.0757556 -0.0757747 0.172537 -0.172538 4.07533e-05 z1 -0.163524 0.163538 5.77929e-06 5.10771e-06 -1.4978e-05 z1 -1.51969e-05 5.10899e-06 0.0246229 -0.0246485 -1.85696e-06 z1 0.0518447 -0.0518386 2.48059e-05 2.2404e-05 -8.99312e-05 z1 9.60992e-06 2.64969e-06 0.0999409 0.099958 0.0895495 z1 -0.03996 -0.0399651 -1.01779e-05 3.96796e-07 -2.56456e-05 z1 7.8729e-06 -4.18471e-06 -0.17911 -0.179124 0.2701 z1 -0.0178542 -0.0178398"},
{"A3", "2+5+0", 16, 8, "0.147543 0.147551 0.0992743 z1 0.441926 0.441921 0.111756 0.111744 0.20951 -0.209516 1.13558e-05 z1 0.428265 -0.428244 0.0957109 -0.095702 -0.179086 -0.179096 -0.129119 z1 0.00831172 0.00832426 0.217736 0.217737 0.195181 0.195204 0.186392 z1 -0.398767 -0.398785 0.141203 0.141173 0.275514 -0.275523 3.13703e-05 z1 -0.0911503 0.0911557 0.121781 -0.121756 -0.127425 0.127445 -9.13908e-06 z1 0.00479257 -0.00478976 0.138299 -0.138305 -0.00255913 -0.00256027 0.0349666 z1 0.0889165 0.0889016 0.124173 0.124209 -0.15002 -0.15003 -0.116005 z1 0.00389763 0.00390754 0.213645 0.213649 -0.0369949 -0.0369632 0.207618 z1 -0.0826556 -0.0826731 0.0363517 0.0363181 0.126116 -0.126134 3.94596e-05 z1 -0.164741 0.164745 0.0678595 -0.0678221 -0.152741 0.152743 -2.87941e-05 z1 0.00734131 -0.00735805 0.173252 -0.173246 -0.0538908 0.0538743 4.17937e-06 z1 0.0455127 -0.0455056 0.0648594 -0.0648821 -0.0186836 -0.0186964 -0.0657885 z1 0.00157174 0.00156664 -0.0112965 -0.0112875 -0.00584077 -0.00584701 -0.01791 z1 -0.0406651 -0.0406704 0.123632 0.123677 0.011449 0.0114563 -0.0836479 z1 -0.00774209 -0.00775179 0.0436275 0.0436324 -0.153961 -0.153936 0.221709 z1 -0.0284149 -0.0283998 -0.00588276 -0.00593294"},
{"A3", "4+5+0", 16, 10, "0.150756 0.150763 0.100029 z1 0.32364 0.32363 0.11458 0.114567 0.154652 0.154658 0.216688 -0.216692 1.14421e-05 z1 0.32488 -0.324856 0.101533 -0.101523 0.140532 -0.140537 -0.178828 -0.178838 -0.130101 z1 -0.256306 -0.256296 0.2215 0.221501 0.305856 0.305859 0.198241 0.198265 0.187809 z1 -0.362579 -0.36259 0.143713 0.143683 -0.0914203 -0.0914306 0.28136 -0.281369 3.16087e-05 z1 -0.0876538 0.0876516 0.126009 -0.125983 -0.0235093 0.0235194 -0.124295 0.124316 -9.20853e-06 z1 -0.170628 0.170629 0.14452 -0.144523 0.206762 -0.20676 -0.00655999 -0.00656006 0.0352323 z1 -0.122196 -0.122199 0.12224 0.122276 0.180363 0.180348 -0.149977 -0.149987 -0.116886 z1 0.0846186 0.0846322 0.216742 0.216745 -0.147834 -0.147839 -0.0434265 -0.0433922 0.209196 z1 -0.015857 -0.0158559 0.0312085 0.0311755 -0.065796 -0.0658238 0.122063 -0.122084 3.97595e-05 z1 -0.120092 0.12009 0.0641138 -0.0640762 -0.0616567 0.0616762 -0.150884 0.150885 -2.9013e-05 z1 0.0249065 -0.0249258 0.178205 -0.178197 -0.0396751 0.0396789 -0.0591934 0.0591749 4.21113e-06 z1 -0.0769747 0.0769682 0.0630138 -0.063036 0.104146 -0.104136 -0.0234899 -0.0235026 -0.0662885 z1 -0.0542918 -0.0542803 -0.0167659 -0.0167555 -0.0222432 -0.0222584 -0.00723464 -0.00724101 -0.0180461 z1 0.0502503 0.0502315 0.123938 0.123982 -0.102998 -0.102984 0.00672194 0.00672957 -0.0842836 z1 0.0956173 0.0956269 0.0380694 0.0380757 -0.0835279 -0.0835499 -0.160458 -0.160433 0.223394 z1 -0.0356423 -0.0356467 -0.0104492 -0.0104984 0.0150959 0.0151327"},
{"A3", "4+5+1", 16, 11, "0.0804316 0.0804377 0.033423 z1 0.341558 0.341549 0.114607 0.114594 0.15469 0.154696 0.143612 0.164184 -0.164186 1.61829e-05 z1 0.351939 -0.351927 0.101558 -0.101548 0.140566 -0.140571 -6.32174e-06 -0.0176294 -0.0176419 0.00937391 z1 -0.290716 -0.290713 0.221553 0.221554 0.30593 0.305933 -0.285516 0.134971 0.134991 0.0954584 z1 -0.339279 -0.339291 0.143748 0.143717 -0.0914423 -0.0914526 0.200636 0.221991 -0.222009 4.16408e-05 z1 -0.0493087 0.0493004 0.12604 -0.126013 -0.023515 0.023525 4.97557e-06 -0.028378 0.0283997 -2.4593e-06 z1 -0.214551 0.214583 0.144555 -0.144558 0.206812 -0.20681 7.14082e-06 -0.154131 -0.154127 -0.0709804 z1 -0.104066 -0.104053 0.122269 0.122306 0.180406 0.180392 0.171719 -0.029166 -0.0291795 0.0244271 z1 0.0491168 0.0491201 0.216794 0.216797 -0.147869 -0.147875 -0.307957 -0.039357 -0.039334 0.125335 z1 -0.0132554 -0.013261 0.031216 0.031183 -0.0658119 -0.0658396 0.104383 0.0930068 -0.0930254 6.57182e-05 z1 -0.0947888 0.0947943 0.0641292 -0.0640916 -0.0616715 0.0616911 8.04645e-06 -0.0404156 0.0404455 -7.34799e-06 z1 -0.0379537 0.0379667 0.178248 -0.17824 -0.0396846 0.0396884 -1.20868e-05 -0.144645 0.14462 -2.07748e-05 z1 -0.0469442 0.0468938 0.063029 -0.0630512 0.104171 -0.104161 2.20219e-06 0.0400211 0.040022 -0.0261867 z1 -0.0503329 -0.0503322 -0.0167699 -0.0167596 -0.0222485 -0.0222638 0.0159144 -0.125601 -0.125601 -0.103438 z1 0.0695666 0.0695752 0.123968 0.124012 -0.103023 -0.103009 0.18579 -0.00386632 -0.00385146 0.0319394 z1 0.0920953 0.0921012 0.0380786 0.0380849 -0.083548 -0.08357 -0.119381 -0.140126 -0.140122 0.138924 z1 -0.0502539 -0.0502658 -0.0104517 -0.0105009 0.0150995 0.0151364 0.0515776"},
{"A3", "3+7+0", 16, 12, "0.11403 0.124437 0.124444 0.132273 0.132269 0.185384 0.185377 0.189529 0.189522 0.210527 z2 4.97115e-06 0.140603 -0.140611 0.147659 -0.147635 0.349513 -0.349507 0.158759 -0.158745 -9.08554e-06 z2 -0.133293 -0.180159 -0.180184 0.251906 0.251916 -0.131966 -0.131963 -0.208512 -0.208502 0.414608 z2 0.199884 0.165373 0.165374 0.146719 0.146709 0.00112011 0.00111511 -0.310741 -0.310739 -0.196638 z2 7.44849e-06 0.236029 -0.236034 0.126644 -0.1266 0.00172344 -0.00172463 -0.255188 0.255173 -9.16353e-06 z2 -2.09726e-05 -0.106895 0.1069 0.225745 -0.225729 -0.0599546 0.0599608 -0.0962529 0.0962544 -3.4129e-07 z2 0.0311306 0.0369548 0.0369929 0.128533 0.128558 -0.00968654 -0.00970657 -0.0251787 -0.0251884 0.242595 z2 -0.0729208 -0.131612 -0.131636 0.212489 0.212504 -0.0630514 -0.0630341 0.15709 0.157081 -0.286791 z2 0.233149 0.0333232 0.0333083 0.0104743 0.0104583 -0.339661 -0.339671 0.177368 0.177385 -0.00277718 z2 4.96898e-06 0.182868 -0.182859 0.0383604 -0.0383084 -0.234149 0.23417 0.172066 -0.172081 2.82969e-05 z2 -3.86227e-05 -0.162514 0.162519 0.159366 -0.15934 -0.0992116 0.0991864 0.120257 -0.120254 -1.32322e-05 z2 2.55401e-05 -0.033101 0.0330842 0.140151 -0.140162 -0.0490986 0.0491496 -0.0391284 0.0390984 1.77792e-05 z2 -0.0844933 -0.00998734 -0.0100267 -0.0388684 -0.0388709 -0.102584 -0.102584 -0.017563 -0.0175531 -0.0266121 z2 -0.060604 -0.0299676 -0.0299413 0.102769 0.102798 -0.0145209 -0.0145745 0.0806132 0.0806306 -0.139422 z2 -0.0667156 -0.0229988 -0.0230342 0.0144091 0.0144053 0.0736521 0.0736626 -0.0447292 -0.0447276 -0.00567532 z2 0.238388 -0.107254 -0.107283 -0.0303189 -0.0303287 -0.00463003 -0.00462046 -0.00292862 -0.00293658 0.0402574 z2"},
{"A3", "4+9+0", 16, 14, "0.108791 0.108807 0.0833691 z1 0.158092 0.158093 0.186113 0.1861 0.1474 0.147389 0.147597 0.1476 0.0641389 0.0641126 0.133422 -0.133445 -7.44041e-06 z1 0.301145 -0.301152 0.153232 -0.153211 0.144109 -0.14408 0.137858 -0.137873 0.0217275 -0.0216888 -0.160782 -0.160784 -0.0987234 z1 -0.17078 -0.170767 -0.20984 -0.209835 0.284077 0.284075 0.284717 0.284715 -0.116792 -0.116802 0.13244 0.132464 0.131383 z1 0.0273131 0.0272914 -0.309565 -0.309552 0.144465 0.144459 -0.144691 -0.144689 0.0760288 0.0759628 0.21542 -0.215456 -1.29358e-05 z1 0.0470567 -0.0470192 -0.241685 0.241671 0.133109 -0.133073 -0.117483 0.117477 0.0533879 -0.0533122 -0.103417 0.103402 -1.9695e-05 z1 -0.147619 0.147597 -0.109123 0.109128 0.205366 -0.205343 0.200262 -0.200264 -0.0136333 0.0136211 0.0398439 0.0398527 0.0471736 z1 -0.019085 -0.0191108 -0.0341121 -0.0341091 0.153033 0.153057 0.153369 0.153356 0.0785288 0.0785622 -0.106672 -0.106657 -0.0184279 z1 -0.0254127 -0.0254079 0.174449 0.174451 0.205526 0.205552 -0.206908 -0.206912 -0.062955 -0.0629681 -0.00688326 -0.00688162 0.158518 z1 -0.310786 -0.310791 0.176568 0.176593 0.000638114 0.000620553 0.000303884 0.000276506 0.0791274 0.0790742 0.145216 -0.145244 -1.19849e-05 z1 -0.234225 0.234216 0.153202 -0.153224 0.0298928 -0.0298353 0.00600176 -0.00597142 0.0845496 -0.0844618 -0.15181 0.151766 -4.41056e-05 z1 -0.0337408 0.0337507 0.146186 -0.146198 0.174273 -0.174253 -0.160858 0.160844 -0.0314412 0.0314414 -0.0295539 0.0295421 5.54154e-06 z1 -0.0880186 0.0880672 -0.0358968 0.0358767 0.0915892 -0.0916016 0.0962947 -0.0962698 -0.00701468 0.00706427 -0.0139828 -0.0140466 -0.103598 z1 -0.03543 -0.0354443 0.00330876 0.00334631 -0.0327879 -0.0327784 -0.0341084 -0.0341167 -0.0558276 -0.0558051 -0.021221 -0.021214 -0.0443129 z1 0.00288139 0.00284555 0.0834512 0.0834557 0.0911494 0.0911944 -0.0926824 -0.0927016 -0.00983582 -0.00984208 0.00743033 0.00743058 -0.00739563 z1 0.132106 0.132112 -0.0562622 -0.0562486 0.000340484 0.000345242 0.0013601 0.00135194 -0.0588009 -0.0588267 -0.146807 -0.146837 0.175483 z1 -0.0456042 -0.0455702 -0.00297494 -0.00301129 -0.0285703 -0.028614 0.029006 0.0290206 0.072596 0.072571"},
{"A3", "9+10+3", 16, 24, "0.0404576 0.0404605 0.0242594 z1 0.144255 0.144253 0.0410558 0.0410575 0.144253 z1 0.131757 0.131761 0.0546132 0.0545989 0.0611277 0.134184 0.0595572 0.0595465 0.060337 0.0603381 0.0595502 0.0988956 0.0923739 0.0923647 0.102277 -0.10228 1.2776e-05 z1 0.182288 -0.182293 0.0538995 -0.0539023 -9.56767e-06 z1 0.224848 -0.224866 0.0858332 -0.0858269 1.18565e-05 1.53724e-05 0.0943742 -0.0943658 0.135981 -0.135982 7.7083e-06 -5.31911e-06 0.0815701 -0.081553 0.000316305 0.00030477 -2.22512e-05 z1 -0.184615 -0.184601 2.72196e-06 1.46102e-05 -0.184594 z1 -0.188385 -0.188376 0.0930017 0.0929764 0.0981053 0.34012 0.0971938 0.0971668 0.0976432 0.0976428 0.0971765 -0.19462 -0.189485 -0.189498 0.0535706 0.0535816 0.0706675 z1 -0.18229 -0.182294 0.104006 0.104006 -0.257802 z1 -0.0143505 -0.0143491 0.0858428 0.0858165 0.138503 -6.25215e-06 -0.094386 -0.0943804 -7.03091e-05 -7.46995e-05 -0.133467 0.132481 0.0815893 0.0815546 0.12484 -0.124857 3.31191e-05 z1 -0.285052 0.285056 0.125759 -0.125759 8.64128e-06 z1 -0.0355831 0.0355686 0.125635 -0.12562 2.01553e-05 5.69423e-06 -0.13466 0.13466 0.000300664 -0.000288863 -1.38945e-05 -6.75532e-06 0.120915 -0.120868 0.000869586 -0.000847446 -7.29288e-07 z1 -0.109703 0.109703 -2.75655e-06 -1.25446e-05 3.4896e-06 z1 -0.164931 0.164924 0.128538 -0.128518 1.94822e-05 2.74676e-05 0.135426 -0.135395 0.192998 -0.192987 1.32397e-05 7.40658e-06 -0.119352 0.119359 -0.0849374 -0.0849511 -0.0554888 z1 0.0175207 0.017505 -0.0862839 -0.0862758 0.0175097 z1 0.0435662 0.0435449 0.014732 0.0147183 0.00237169 0.395112 0.00575711 0.00572558 0.00406279 0.00406307 0.00574152 0.116945 0.129234 0.129302 0.000155603 0.000139009 -5.75594e-05 z1 0.109693 0.10968 7.00657e-06 3.1839e-05 0.155112 z1 -0.00285262 -0.00284314 0.128547 0.128531 0.194465 -7.46067e-06 -0.13543 -0.135431 -0.000173736 -0.000171822 -0.191507 -0.181492 -0.119374 -0.119365 -0.0861657 -0.0861499 0.0961168 z1 -1.16594e-06 7.90483e-06 0.0884652 0.0884559 0.285063 z1 -0.252119 -0.25213 1.68549e-05 -2.89558e-05 0.143097 1.88947e-06 1.99794e-05 1.19803e-05 -0.138875 -0.138881 0.134664 0.138389 2.12332e-05 5.01205e-07 -0.0199114 0.0198738 5.34762e-05 z1 0.175755 -0.175762 0.168861 -0.168848 -5.84924e-06 z1 -0.230175 0.23019 0.0778214 -0.077759 2.06385e-05 -1.0888e-05 0.0768969 -0.076885 -0.114705 0.114707 1.8709e-05 2.64755e-06 0.0757396 -0.0756741 0.000459579 -0.00042384 -2.08445e-06 z1 0.154649 -0.154629 -6.78893e-06 -2.27705e-05 1.5335e-05 z1 -0.0079501 0.00794353 0.186713 -0.186713 3.0025e-05 9.44168e-06 -0.194511 0.194511 -9.56223e-05 9.12627e-05 -1.85118e-05 1.45602e-05 -0.175961 0.175949 -0.107672 0.107689 -1.41471e-05 z1 -0.0544215 0.0544167 -0.0584645 0.0584612 -1.27156e-05 z1 -0.0426528 0.0426781 0.0688191 -0.0687832 1.64138e-05 2.31814e-05 0.0620783 -0.0620334 0.0851432 -0.0851092 1.69908e-05 3.61031e-06 0.057649 -0.0577015 -0.00100584 -0.000986892 5.40169e-05 z1 -0.0290973 -0.0290892 -3.24529e-06 -3.51127e-05 -0.0291096 z1 -0.0183855 -0.0183949 -0.0757588 -0.0757667 -0.0905561 0.295867 -0.0876721 -0.0876988 -0.0891338 -0.0891063 -0.0876746 -0.000158811 -0.0148511 -0.014915 -0.0580425 -0.0580707 -0.0868975 z1 0.0544259 0.0544369 -0.109725 -0.109697 0.0769598 z1 0.0154536 0.0154348 0.0688154 0.068842 0.0824572 3.75221e-06 -0.0620594 -0.0620702 -6.91485e-05 -6.04101e-05 -0.0877632 0.0667049 0.0576491 0.0577027 -0.00124513 -0.00123582 -7.9458e-05 z1 2.1656e-05 2.29364e-05 1.1901e-05 2.4487e-05 -0.154619 z1 0.167111 0.167099 1.37678e-05 -6.82054e-08 0.200251 5.51442e-06 1.155e-05 4.0094e-05 -0.197381 -0.197393 0.194511 -0.189508 -1.86571e-05 -1.32548e-05 -0.167195 -0.167194 0.1122 z1 0.175746 0.175746 0.0224786 0.0224619 -0.24857 z1 0.0534036 0.0533792 -0.0777836 -0.0778339 0.120668 -9.91996e-06 0.076863 0.0768852 -0.00174083 -0.00172111 -0.108739 0.117759 -0.0756894 -0.0756852"},
{"A3", "0+7+0", 16, 8, "0.213372 0.213375 0.166184 z1 0.23657 0.236564 0.288435 0.288423 0.214425 -0.214422 1.11185e-05 z1 0.374832 -0.374828 0.221056 -0.221047 2.94162e-05 -7.82049e-06 -3.66404e-05 z1 -1.56285e-05 -2.54864e-07 -6.8685e-06 -1.44604e-05 0.255723 0.255732 0.230248 z1 0.0424344 0.0424175 -0.405015 -0.405013 0.345028 -0.345024 3.30963e-05 z1 0.0681662 -0.0681345 -0.326456 0.326461 1.91223e-06 2.20792e-05 -2.2064e-05 z1 -7.63351e-06 -9.34998e-06 -1.18757e-06 2.47436e-05 0.152974 0.152994 0.177103 z1 0.140428 0.140437 0.122777 0.122744 1.85454e-05 8.36579e-06 -1.86962e-05 z1 -1.23899e-05 1.34667e-05 6.76368e-06 -5.06875e-06 0.0513562 0.051375 0.260114 z1 -0.373377 -0.373385 0.193534 0.193545 0.255146 -0.255161 3.88157e-05 z1 -0.269943 0.269967 0.177532 -0.177535 1.2918e-05 4.42598e-06 -1.68517e-05 z1 -5.81525e-07 -3.32825e-06 -1.67303e-06 1.10285e-05 0.0142644 -0.0142601 7.32965e-06 z1 0.0243874 -0.0243765 0.0160931 -0.0160648 8.54541e-05 2.62321e-05 -5.08504e-05 z1 -1.39257e-05 1.12152e-05 2.0238e-05 1.84955e-05 0.0308761 0.0308964 0.0255431 z1 0.0192273 0.0192244 -0.030024 -0.0300257 1.5813e-05 3.78724e-05 -4.75573e-06 z1 -2.52232e-06 -8.14448e-07 1.46102e-05 3.54098e-05 -0.139695 -0.139691 0.274144 z1 -0.0629389 -0.0629289 0.0375305 0.0375304"},
{"A3", "4+7+0", 16, 12, "0.124843 0.124851 0.114402 z1 0.158755 0.158757 0.186203 0.18619 0.14471 0.144701 0.144951 0.144954 0.141062 -0.14107 4.98739e-06 z1 0.295107 -0.295116 0.150116 -0.150098 0.141474 -0.141446 0.135387 -0.135401 -0.180747 -0.180773 -0.133728 z1 -0.176799 -0.176786 -0.214964 -0.21496 0.278957 0.278957 0.279613 0.279611 0.165913 0.165914 0.200537 z1 0.0268778 0.0268566 -0.303325 -0.303312 0.141751 0.141751 -0.142097 -0.142095 0.2368 -0.236805 7.47282e-06 z1 0.0461416 -0.0461074 -0.236973 0.236956 0.130601 -0.130567 -0.115377 0.115371 -0.107245 0.107249 -2.10411e-05 z1 -0.143595 0.143578 -0.106372 0.106381 0.201654 -0.201633 0.196671 -0.196674 0.0370755 0.0371138 0.0312323 z1 -0.00756537 -0.00759074 -0.0225753 -0.0225726 0.150391 0.150412 0.150619 0.150606 -0.132042 -0.132066 -0.0731589 z1 -0.0250863 -0.0250819 0.169771 0.169772 0.201775 0.201805 -0.203199 -0.203202 0.0334321 0.0334171 0.23391 z1 -0.305162 -0.305167 0.172868 0.172893 0.00050605 0.000496602 0.000298436 0.000271549 0.183466 -0.183456 4.98521e-06 z1 -0.229775 0.229764 0.150335 -0.150359 0.0291925 -0.0291385 0.00589416 -0.00586437 -0.163044 0.16305 -3.87489e-05 z1 -0.0329644 0.0329817 0.142695 -0.142699 0.171071 -0.171055 -0.157975 0.15796 -0.0332091 0.0331922 2.56236e-05 z1 -0.088117 0.0881564 -0.0362253 0.0361976 0.0900017 -0.0900155 0.0945684 -0.0945439 -0.01002 -0.0100594 -0.0847692 z1 -0.0443186 -0.0443327 -0.00606157 -0.00602462 -0.0321156 -0.0321118 -0.0334969 -0.0335051 -0.0300655 -0.0300391 -0.060802 z1 0.0030102 0.00297546 0.083992 0.0839966 0.0896532 0.0896939 -0.0910209 -0.0910397 -0.0230739 -0.0231094 -0.0669335 z1 0.129563 0.129569 -0.05405 -0.0540363 0.000267124 0.000277979 0.00133572 0.00132771 -0.107604 -0.107634 0.239167 z1 -0.0445753 -0.0445418 -0.00287552 -0.00291104 -0.0281263 -0.0281581 0.028486 0.0285003"},
{"A3", "7.1.5.4", 16, 17, "0.035644 0.0356505 0.0627275 z1 0.0809673 0.0809786 0.0837162 0.0836975 0.112542 0.112532 0.112789 0.112792 0.102387 0.147478 0.14749 0.147747 0.147744 0.0676283 -0.067636 -1.47146e-06 z1 0.217108 -0.217134 0.0792584 -0.0792157 0.151216 -0.151178 0.145012 -0.145018 -7.52301e-06 -0.14415 0.144174 0.138004 -0.138005 -3.74616e-06 -3.4945e-06 1.0689e-05 z1 -3.32007e-06 -2.46451e-06 4.7687e-07 -9.88207e-07 0.191787 0.191785 0.192457 0.192455 0.267439 -0.284327 -0.284318 -0.285003 -0.284984 0.0759131 0.075928 0.172598 z1 0.0112528 0.0112408 -0.202899 -0.202878 0.151496 0.151497 -0.151841 -0.151841 -1.14168e-05 0.14446 0.144481 -0.144832 -0.144833 0.128837 -0.128845 -7.64121e-07 z1 0.0241279 -0.024099 -0.148219 0.148181 0.137004 -0.136973 -0.121491 0.12148 5.5516e-06 -0.133087 0.133095 -0.117585 0.117591 -1.60051e-05 2.57659e-06 -8.39496e-07 z1 -7.26615e-06 4.66221e-06 2.68033e-07 -5.92828e-06 0.221472 -0.221431 0.216394 -0.216378 -1.60966e-05 0.205503 -0.205512 -0.20046 0.200449 -0.0812589 -0.0812779 -0.11802 z1 -0.159476 -0.159507 -0.171935 -0.171895 0.0341774 0.0341976 0.0344105 0.0343968 0.333051 0.153342 0.153279 0.153519 0.153486 1.44059e-06 -8.89477e-06 2.01357e-05 z1 1.57096e-05 -3.59008e-06 2.80285e-07 5.8404e-06 0.22159 0.221623 -0.223027 -0.223034 -2.00924e-05 -0.205667 -0.205664 0.207115 0.207113 0.0154418 0.0154537 0.210018 z1 -0.239098 -0.239108 0.153911 0.153967 0.000514451 0.000505171 0.000307322 0.000280776 -4.477e-06 0.000514748 0.000526173 0.000286082 0.000267061 0.112277 -0.112277 7.01429e-06 z1 -0.19151 0.191489 0.124404 -0.124454 0.0301803 -0.0301128 0.00643616 -0.00639486 -1.11403e-05 -0.0297302 0.0297339 0.00598996 -0.00595346 -1.7954e-05 6.65888e-06 -2.59045e-06 z1 3.23246e-05 7.21631e-06 3.57878e-06 3.31744e-07 0.183547 -0.183538 -0.170207 0.170182 1.09974e-05 0.174352 -0.174342 0.160997 -0.161003 -0.08231 0.0823242 -9.36293e-07 z1 -0.204646 0.204689 -0.0903155 0.0902704 0.113124 -0.113114 0.117778 -0.117731 -1.88194e-05 -0.0917684 0.0917387 0.0963688 -0.096358 7.55621e-06 9.5072e-06 -2.53933e-05 z1 6.63719e-06 1.9383e-06 -3.13135e-06 -2.90216e-06 -0.143174 -0.143169 -0.144585 -0.144594 0.287466 0.0326955 0.0327476 0.0341406 0.0341637 -0.0928988 -0.092927 -0.150163 z1 -0.0136161 -0.013616 0.202026 0.202 0.11276 0.112802 -0.114144 -0.114165 -1.4091e-05 0.0914198 0.0913905 -0.0927889 -0.0927794 3.34803e-05 -1.20206e-05 1.49035e-06 z1 6.24573e-06 2.93656e-06 -3.95097e-06 -1.56655e-05 0.000269933 0.000281088 0.00136765 0.00136055 -8.42221e-06 -0.000284415 -0.000275411 -0.00134767 -0.00135339 -0.0761366 -0.076116 0.206373 z1 -0.0263012 -0.0262575 -0.0443608 -0.0444523 -0.0290893 -0.0291206 0.0294584 0.029472 -7.25602e-06 -0.0287137 -0.0286639 0.0290222 0.0290649"},
{"A3", "3.1.2", 16, 6, "0.460032 0.460036 0.0992743 z1 0.111756 0.111744 0.512339 -0.51233 1.13558e-05 z1 0.0957109 -0.095702 -0.173209 -0.17321 -0.129119 z1 0.217736 0.217737 -0.0867904 -0.0867788 0.186392 z1 0.141203 0.141173 0.211061 -0.211066 3.13703e-05 z1 0.121781 -0.121756 -0.124036 0.124058 -9.13908e-06 z1 0.138299 -0.138305 0.0603144 0.0603027 0.0349666 z1 0.124173 0.124209 -0.147264 -0.147267 -0.116005 z1 0.213645 0.213649 -0.0954412 -0.0954219 0.207618 z1 0.0363517 0.0363181 0.00962671 -0.00964092 3.94596e-05 z1 0.0678595 -0.0678221 -0.14755 0.14754 -2.87941e-05 z1 0.173252 -0.173246 -0.0217085 0.0216969 4.17937e-06 z1 0.0648594 -0.0648821 -0.0175722 -0.0175886 -0.0657885 z1 -0.0112965 -0.0112875 -0.0345954 -0.0346053 -0.01791 z1 0.123632 0.123677 0.00597454 0.00597492 -0.0836479 z1 0.0436275 0.0436324 -0.174053 -0.174017 0.221709 z1 -0.00588276 -0.00593294"},
{"A3", "7.1.2", 16, 10, "0.124843 0.124851 0.114402 z1 0.158755 0.158757 0.186203 0.18619 0.247206 0.247199 0.141062 -0.14107 4.98739e-06 z1 0.295107 -0.295116 0.150116 -0.150098 0.237207 -0.23719 -0.180747 -0.180773 -0.133728 z1 -0.176799 -0.176786 -0.214964 -0.21496 0.476673 0.476672 0.165913 0.165914 0.200537 z1 0.0268778 0.0268566 -0.303325 -0.303312 0.0412732 0.0412742 0.2368 -0.236805 7.47282e-06 z1 0.0461416 -0.0461074 -0.236973 0.236956 0.0490173 -0.0489877 -0.107245 0.107249 -2.10411e-05 z1 -0.143595 0.143578 -0.106372 0.106381 0.340721 -0.340703 0.0370755 0.0371138 0.0312323 z1 -0.00756537 -0.00759074 -0.0225753 -0.0225726 0.256895 0.256907 -0.132042 -0.132066 -0.0731589 z1 -0.0250863 -0.0250819 0.169771 0.169772 0.0580915 0.0581198 0.0334321 0.0334171 0.23391 z1 -0.305162 -0.305167 0.172868 0.172893 0.000717076 0.000688616 0.183466 -0.183456 4.98521e-06 z1 -0.229775 0.229764 0.150335 -0.150359 0.0333603 -0.0332852 -0.163044 0.16305 -3.87489e-05 z1 -0.0329644 0.0329817 0.142695 -0.142699 0.0593658 -0.0593606 -0.0332091 0.0331922 2.56236e-05 z1 -0.088117 0.0881564 -0.0362253 0.0361976 0.156872 -0.156868 -0.01002 -0.0100594 -0.0847692 z1 -0.0443186 -0.0443327 -0.00606157 -0.00602462 -0.0558015 -0.0558035 -0.0300655 -0.0300391 -0.060802 z1 0.0030102 0.00297546 0.083992 0.0839966 0.0252917 0.0253191 -0.0230739 -0.0231094 -0.0669335 z1 0.129563 0.129569 -0.05405 -0.0540363 0.00121162 0.00121681 -0.107604 -0.107634 0.239167 z1 -0.0445753 -0.0445418 -0.00287552 -0.00291104 -0.00798369 -0.00800536"},
{"A3", "9.1.6", 16, 16, "0.0404576 0.0404605 0.123155 z1 0.246257 0.246255 0.176654 0.176646 0.131757 0.131761 0.121705 0.121691 0.168757 0.168747 0.060337 0.0603381 0.102277 -0.10228 7.45686e-06 z1 0.182281 -0.1823 0.135478 -0.135447 0.224848 -0.224866 0.0858408 -0.0858192 0.0943873 -0.0943527 0.135981 -0.135982 0.000316305 0.00030477 -0.194642 z1 -0.315143 -0.315129 -0.120112 -0.120113 -0.188385 -0.188376 0.263062 0.263036 0.335968 0.335941 0.0976432 0.0976428 0.0535706 0.0535816 0.203148 z1 -0.364583 -0.364587 0.283532 0.283497 -0.0143505 -0.0143491 0.0858397 0.0858134 -0.188764 -0.188759 -7.03091e-05 -7.46995e-05 0.12484 -0.124857 2.63637e-05 z1 -0.285046 0.285062 0.246688 -0.246612 -0.0355831 0.0355686 0.125638 -0.125617 -0.134667 0.134653 0.000300664 -0.000288863 0.000869586 -0.000847446 6.6773e-06 z1 -0.1097 0.109706 -0.119341 0.11936 -0.164931 0.164924 0.128552 -0.128504 0.135449 -0.135372 0.192998 -0.192987 -0.0849374 -0.0849511 0.0614558 z1 0.0299019 0.0298862 0.0446276 0.0447036 0.0435662 0.0435449 0.212288 0.212274 0.207373 0.207341 0.00406279 0.00406307 0.000155603 0.000139009 -0.181549 z1 0.219374 0.21936 0.0181405 0.018174 -0.00285262 -0.00284314 0.128543 0.128528 -0.27085 -0.270851 -0.000173736 -0.000171822 -0.0861657 -0.0861499 0.234505 z1 0.201569 0.201578 0.189671 0.189641 -0.252119 -0.25213 1.77996e-05 -2.80111e-05 0.0952426 0.0952346 -0.138875 -0.138881 -0.0199114 0.0198738 5.61237e-05 z1 0.175751 -0.175766 0.244615 -0.244508 -0.230175 0.23019 0.077816 -0.0777644 0.0769047 -0.0768772 -0.114705 0.114707 0.000459579 -0.00042384 1.24758e-05 z1 0.15466 -0.154618 -0.175946 0.175947 -0.0079501 0.00794353 0.186718 -0.186708 -0.194519 0.194503 -9.56223e-05 9.12627e-05 -0.107672 0.107689 -1.05368e-05 z1 -0.0544305 0.0544077 -0.000803907 0.000771282 -0.0426528 0.0426781 0.0688307 -0.0687716 0.0621019 -0.0620098 0.0851432 -0.0851092 -0.00100584 -0.000986892 -0.000104794 z1 -0.049681 -0.0496728 -0.0788872 -0.0789829 -0.0183855 -0.0183949 0.0721746 0.0721666 -0.00173404 -0.00176077 -0.0891338 -0.0891063 -0.0580425 -0.0580707 -0.0201926 z1 0.108845 0.108856 0.00623025 0.00631178 0.0154536 0.0154348 0.0688173 0.0688439 -0.124116 -0.124126 -6.91485e-05 -6.04101e-05 -0.00124513 -0.00123582 -0.189587 z1 -0.10931 -0.109309 0.141592 0.14161 0.167111 0.167099 1.6525e-05 2.689e-06 0.137555 0.137583 -0.197381 -0.197393 -0.167195 -0.167194 0.229959 z1 -1.93018e-05 -1.9377e-05 0.0321141 0.0321016 0.0534036 0.0533792 -0.0777885 -0.0778389 -3.23357e-05 -1.01692e-05 -0.00174083 -0.00172111"},
{"A4", "0+1+0", 25, 1, "0.609331 3.85722e-06 -1.91203e-07 0.0723157 4.07871e-06 8.18491e-06 0.0920183 7.9088e-07 0.157882 5.32085e-06 3.17274e-07 -1.05575e-05 -8.2016e-06 0.0395773 -1.52544e-05 0.0494263 1.27014e-05 -1.78368e-07 1.3378e-05 -6.37105e-06 0.0307441 -6.36642e-06 0.0116671 -9.93439e-06 0.0318609"},
{"A4", "0+2+0", 25, 2, "0.609326 0.609336 0.558872 -0.558864 -8.38471e-07 4.56065e-07 0.0723023 0.0723291 0.245481 -0.245473 2.34091e-06 1.40289e-05 0.0920215 0.092015 -1.43551e-07 1.72531e-06 0.157873 0.157892 0.105702 -0.105691 -9.19418e-06 9.82873e-06 0.0144172 -0.0144383 6.20096e-06 -2.26042e-05 0.0395665 0.039588 -1.74919e-05 -1.30168e-05 0.0494242 0.0494285 0.117564 -0.117539 1.01197e-05 -1.04764e-05 0.0384279 -0.0384012 1.21176e-05 -2.48597e-05 0.030737 0.0307512 1.37836e-05 -2.65164e-05 0.0116516 0.0116826 -2.01717e-05 3.02903e-07 0.0318683 0.0318534"},
{"A4", "0+5+0", 25, 6, "0.232067 0.232069 0.152987 z1 0.432778 0.432774 0.287682 -0.287684 8.47774e-06 z1 0.41773 -0.417708 1.58253e-05 9.17551e-06 -3.77129e-05 z1 -4.07552e-06 9.94266e-06 0.284783 0.284794 0.245811 z1 -0.398733 -0.398749 0.367407 -0.367407 3.51903e-05 z1 -0.0982332 0.0982426 4.53634e-06 1.35444e-05 -1.30978e-05 z1 2.47605e-06 1.56884e-06 0.120886 0.120907 0.158282 z1 0.0849313 0.084916 2.54987e-05 2.00818e-05 -4.31638e-06 z1 -1.53544e-06 9.47703e-06 -0.0372337 -0.0372195 0.252253 z1 -0.0751915 -0.0752105 0.171252 -0.171253 4.04498e-05 z1 -0.162306 0.162321 5.73626e-06 5.06968e-06 -1.48665e-05 z1 -1.50838e-05 5.07095e-06 0.0244396 -0.0244649 -1.84314e-06 z1 0.0514587 -0.0514527 2.46212e-05 2.22372e-05 -8.92616e-05 z1 9.53837e-06 2.62996e-06 0.0991968 0.0992138 0.0888828 z1 -0.0396625 -0.0396675 -1.01021e-05 3.93842e-07 -2.54546e-05 z1 7.81429e-06 -4.15355e-06 -0.177776 -0.177791 0.26809 z1 -0.0177212 -0.0177069 0.0377615 -0.0377526 2.70687e-05 z1 0.003725 -0.00368162 8.37227e-06 1.07821e-06 -1.00428e-05 z1 -6.09454e-06 1.45915e-06 0.101177 -0.10116 3.8238e-05 z1 -0.0445949 0.0446224 3.12881e-05 -1.84697e-05 -2.37787e-05 z1 -3.55618e-05 -1.89062e-05 0.067778 0.0677924 0.0940559 z1 0.0122689 0.012271 7.20085e-05 2.27946e-05 -1.52893e-05 z1 -2.25968e-05 1.3019e-05 -0.0428514 -0.0428428 0.0335047 z1 -0.0033894 -0.00338714 4.63126e-06 -3.87257e-06 -8.4075e-08 z1 -1.98655e-05 -8.88736e-06 -0.107408 -0.107412 0.24451 z1 0.00931008 0.00931983"},
{"A4", "2+5+0", 25, 8, "0.146202 0.146209 0.0983717 z1 0.437908 0.437903 0.11074 0.110728 0.207605 -0.207611 1.12526e-05 z1 0.424372 -0.424351 0.0948407 -0.0948319 -0.177458 -0.177467 -0.127945 z1 0.00823615 0.00824858 0.215756 0.215758 0.193406 0.19343 0.184698 z1 -0.395142 -0.395159 0.139919 0.13989 0.273009 -0.273018 3.10851e-05 z1 -0.0903216 0.0903269 0.120674 -0.120649 -0.126266 0.126287 -9.05599e-06 z1 0.00474899 -0.00474621 0.137042 -0.137047 -0.00253586 -0.00253699 0.0346487 z1 0.0881081 0.0880933 0.123044 0.12308 -0.148656 -0.148666 -0.11495 z1 0.0038622 0.00387201 0.211703 0.211706 -0.0366585 -0.0366271 0.20573 z1 -0.0819042 -0.0819215 0.0360212 0.0359879 0.12497 -0.124987 3.91009e-05 z1 -0.163244 0.163248 0.0672426 -0.0672055 -0.151352 0.151354 -2.85324e-05 z1 0.00727456 -0.00729115 0.171676 -0.171671 -0.0534009 0.0533845 4.14137e-06 z1 0.0450989 -0.0450919 0.0642697 -0.0642922 -0.0185137 -0.0185264 -0.0651904 z1 0.00155745 0.0015524 -0.0111938 -0.0111849 -0.00578767 -0.00579386 -0.0177472 z1 -0.0402954 -0.0403006 0.122508 0.122552 0.0113449 0.0113521 -0.0828874 z1 -0.0076717 -0.00768131 0.0432309 0.0432357 -0.152561 -0.152536 0.219693 z1 -0.0281566 -0.0281416 -0.00582927 -0.005879 0.0141232 -0.0141425 3.65974e-05 z1 -0.00414743 0.00417781 0.0299387 -0.0298887 -0.0738524 0.0738449 -2.56549e-05 z1 -0.000696637 0.00067398 0.0894186 -0.0894134 -0.0162813 0.0162928 2.56026e-05 z1 -0.0472703 0.0472956 0.101846 -0.101862 0.0126649 -0.0126519 -1.22458e-05 z1 -0.0115757 0.0115276 -0.0354355 0.0354313 0.0886331 0.0886597 0.0823315 z1 0.0207942 0.0207982 -0.0295814 -0.0296121 -0.0143446 -0.0143844 -0.0403156 z1 -0.00207284 -0.0020366 -0.0139687 -0.0139825 -0.0139598 -0.0139767 -0.0390022 z1 -0.00512566 -0.00512132 0.00749153 0.00753781 0.0506447 0.0506594 -0.0932963 z1 -0.0111188 -0.011105 -0.00942221 -0.00944686 -0.0990625 -0.0990315 0.203358 z1 0.0053451 0.00535219 0.00287384 0.00283843"},
{"A4", "4+5+0", 25, 10, "0.1488 0.148807 0.098731 z1 0.319441 0.319432 0.113093 0.11308 0.152646 0.152652 0.213877 -0.213881 1.12937e-05 z1 0.320665 -0.320642 0.100216 -0.100206 0.138709 -0.138714 -0.176508 -0.176518 -0.128413 z1 -0.252981 -0.252971 0.218627 0.218627 0.301888 0.301891 0.195669 0.195693 0.185372 z1 -0.357876 -0.357886 0.141849 0.141819 -0.0902343 -0.0902444 0.27771 -0.277719 3.11986e-05 z1 -0.0865167 0.0865145 0.124375 -0.124348 -0.0232043 0.0232142 -0.122682 0.122703 -9.08907e-06 z1 -0.168415 0.168415 0.142645 -0.142649 0.204079 -0.204078 -0.00647488 -0.00647495 0.0347752 z1 -0.12061 -0.120614 0.120654 0.12069 0.178023 0.178009 -0.148032 -0.148041 -0.11537 z1 0.0835208 0.0835342 0.21393 0.213933 -0.145916 -0.145921 -0.0428631 -0.0428293 0.206482 z1 -0.0156513 -0.0156502 0.0308036 0.0307711 -0.0649424 -0.0649699 0.12048 -0.1205 3.92437e-05 z1 -0.118534 0.118532 0.063282 -0.0632449 -0.0608568 0.0608761 -0.148926 0.148927 -2.86366e-05 z1 0.0245834 -0.0246024 0.175893 -0.175886 -0.0391604 0.0391641 -0.0584255 0.0584072 4.15649e-06 z1 -0.0759761 0.0759696 0.0621964 -0.0622182 0.102795 -0.102785 -0.0231852 -0.0231977 -0.0654285 z1 -0.0535874 -0.0535761 -0.0165484 -0.0165382 -0.0219546 -0.0219696 -0.00714078 -0.00714707 -0.017812 z1 0.0495984 0.0495799 0.12233 0.122374 -0.101662 -0.101648 0.00663474 0.00664227 -0.0831902 z1 0.0943768 0.0943864 0.0375755 0.0375817 -0.0824443 -0.082466 -0.158377 -0.158352 0.220495 z1 -0.0351799 -0.0351842 -0.0103136 -0.0103622 0.0149 0.0149364 0.008637 -0.00865753 3.67311e-05 z1 -0.00636479 0.00640831 0.0255311 -0.0254823 0.00988256 -0.00992759 -0.0782421 0.0782342 -2.57486e-05 z1 0.0753813 -0.0754085 0.0848422 -0.084837 -0.0857853 0.0857885 -0.018276 0.0182874 2.56961e-05 z1 -0.01433 0.0143715 0.102033 -0.102046 -0.0361391 0.0361313 0.00515472 -0.005142 -1.22906e-05 z1 -0.0148971 0.0148356 -0.0434671 0.0434619 -0.0432767 0.0432739 0.0912104 0.091236 0.0826322 z1 0.0700693 0.0700751 -0.0303211 -0.0303507 -0.0788244 -0.0788209 -0.0165614 -0.0166017 -0.0404629 z1 0.0595057 0.0595171 -0.0162527 -0.0162663 -0.0110683 -0.0110477 -0.0106711 -0.0106904 -0.0391446 z1 0.0613926 0.0613915 0.00795647 0.0080037 -0.0267793 -0.0267678 0.046273 0.0462867 -0.0936371 z1 -0.0307258 -0.0307293 -0.0147626 -0.0147833 0.0198163 0.0198337 -0.0964376 -0.0964107 0.2041 z1 0.000304148 0.000313372 0.00533106 0.00529635 0.00629886 0.00629964"},
{"A4", "4+5+1", 25, 11, "0.0794007 0.0794068 0.0329946 z1 0.33718 0.337171 0.113138 0.113125 0.152707 0.152713 0.141771 0.16208 -0.162082 1.59755e-05 z1 0.347428 -0.347417 0.100256 -0.100246 0.138764 -0.138769 -6.24072e-06 -0.0174035 -0.0174158 0.00925377 z1 -0.28699 -0.286987 0.218714 0.218714 0.302009 0.302012 -0.281856 0.133241 0.133261 0.094235 z1 -0.33493 -0.334943 0.141905 0.141875 -0.0902703 -0.0902805 0.198064 0.219146 -0.219164 4.11071e-05 z1 -0.0486768 0.0486686 0.124424 -0.124398 -0.0232136 0.0232235 4.9118e-06 -0.0280143 0.0280357 -2.42778e-06 z1 -0.211802 0.211833 0.142702 -0.142706 0.204161 -0.204159 7.0493e-06 -0.152156 -0.152151 -0.0700707 z1 -0.102732 -0.102719 0.120702 0.120738 0.178094 0.17808 0.169518 -0.0287922 -0.0288056 0.0241141 z1 0.0484873 0.0484905 0.214016 0.214018 -0.145974 -0.145979 -0.304011 -0.0388526 -0.0388299 0.123729 z1 -0.0130855 -0.0130911 0.0308159 0.0307834 -0.0649684 -0.0649958 0.103045 0.0918148 -0.0918332 6.4876e-05 z1 -0.0935739 0.0935794 0.0633073 -0.0632702 -0.0608811 0.0609004 7.94332e-06 -0.0398976 0.0399271 -7.25382e-06 z1 -0.0374673 0.0374801 0.175964 -0.175956 -0.039176 0.0391798 -1.19319e-05 -0.142791 0.142767 -2.05086e-05 z1 -0.0463426 0.0462927 0.0622212 -0.0622431 0.102836 -0.102826 2.17397e-06 0.0395081 0.0395091 -0.0258511 z1 -0.0496878 -0.0496871 -0.016555 -0.0165448 -0.0219634 -0.0219784 0.0157105 -0.123992 -0.123991 -0.102112 z1 0.068675 0.0686835 0.122379 0.122423 -0.101703 -0.101689 0.183409 -0.00381677 -0.0038021 0.0315301 z1 0.090915 0.0909208 0.0375906 0.0375968 -0.0824772 -0.082499 -0.117851 -0.13833 -0.138326 0.137144 z1 -0.0496098 -0.0496216 -0.0103177 -0.0103663 0.014906 0.0149424 0.0509165 -0.00170099 0.00170333 7.76473e-05 z1 0.00147389 -0.0014072 0.0255413 -0.0254925 0.00988651 -0.00993156 6.69124e-06 -0.0244909 0.0244979 -1.39623e-05 z1 0.0346698 -0.0346818 0.0848761 -0.0848709 -0.0858196 0.0858228 -7.52591e-06 -0.130555 0.130527 -4.08011e-05 z1 0.0371218 -0.0371384 0.102074 -0.102086 -0.0361535 0.0361458 1.88783e-05 0.0331859 -0.0331717 5.77868e-06 z1 -0.0153365 0.0153075 -0.0434845 0.0434793 -0.043294 0.0432912 -1.02615e-05 0.102033 0.102022 0.06302 z1 0.0671367 0.0671405 -0.0303333 -0.0303629 -0.0788559 -0.0788524 -0.0693408 0.0395135 0.0394937 -0.0429362 z1 0.0662238 0.0662136 -0.0162591 -0.0162728 -0.0110727 -0.0110521 0.0123561 0.00971421 0.00969063 -0.0970269 z1 0.0625669 0.0625863 0.00795965 0.0080069 -0.02679 -0.0267785 0.0133509 0.00994761 0.00998796 0.0333228 z1 -0.00937739 -0.00937908 -0.0147685 -0.0147892 0.0198242 0.0198416 -0.0431726 -0.0813868 -0.0813785 0.135815 z1 -0.0183892 -0.018378 0.00533319 0.00529847 0.00630138 0.00630216 0.0258637"},
{"A4", "3+7+0", 25, 12, "0.11236 0.122615 0.122623 0.130336 0.130333 0.18267 0.182664 0.186755 0.186747 0.207445 z2 4.89838e-06 0.138544 -0.138553 0.145498 -0.145474 0.344397 -0.344391 0.156435 -0.156421 -8.95255e-06 z2 -0.131342 -0.177522 -0.177547 0.248218 0.248229 -0.130034 -0.130031 -0.20546 -0.205449 0.408539 z2 0.196958 0.162952 0.162953 0.144572 0.144562 0.00110371 0.00109878 -0.306193 -0.30619 -0.193759 z2 7.33946e-06 0.232574 -0.232579 0.12479 -0.124746 0.00169821 -0.00169939 -0.251452 0.251438 -9.02939e-06 z2 -2.06656e-05 -0.105331 0.105335 0.22244 -0.222425 -0.059077 0.0590831 -0.0948439 0.0948454 -3.36294e-07 z2 0.0306749 0.0364139 0.0364514 0.126651 0.126676 -0.00954475 -0.00956448 -0.0248101 -0.0248197 0.239044 z2 -0.0718533 -0.129685 -0.129709 0.209378 0.209393 -0.0621284 -0.0621114 0.15479 0.154782 -0.282593 z2 0.229736 0.0328354 0.0328207 0.0103209 0.0103053 -0.334689 -0.334698 0.174771 0.174789 -0.00273653 z2 4.89624e-06 0.180192 -0.180182 0.0377988 -0.0377476 -0.230721 0.230743 0.169547 -0.169562 2.78827e-05 z2 -3.80573e-05 -0.160135 0.16014 0.157033 -0.157008 -0.0977593 0.0977345 0.118497 -0.118493 -1.30385e-05 z2 2.51663e-05 -0.0326164 0.0325999 0.138099 -0.13811 -0.0483798 0.0484301 -0.0385556 0.0385261 1.75189e-05 z2 -0.0832564 -0.00984114 -0.00987988 -0.0382995 -0.0383019 -0.101082 -0.101083 -0.017306 -0.0172962 -0.0262225 z2 -0.0597169 -0.029529 -0.029503 0.101265 0.101293 -0.0143083 -0.0143611 0.0794332 0.0794503 -0.137381 z2 -0.065739 -0.0226622 -0.022697 0.0141982 0.0141944 0.0725739 0.0725843 -0.0440745 -0.0440729 -0.00559224 z2 0.234899 -0.105684 -0.105713 -0.029875 -0.0298847 -0.00456226 -0.00455282 -0.00288575 -0.00289359 0.0396681 z2 1.16224e-05 0.0573146 -0.0572648 -0.00269859 0.00276065 -0.00476964 0.00474095 -0.0174259 0.0174481 -4.23575e-05 z2 -4.01365e-05 -0.112291 0.11233 0.0388255 -0.0388039 0.0688463 -0.0688274 -0.0304282 0.030431 5.34808e-06 z2 4.14857e-05 -0.0118396 0.011827 0.0531081 -0.0531261 -0.0426927 0.0427328 0.0109541 -0.0109393 -2.45865e-06 z2 -1.65239e-05 0.0328756 -0.0328388 0.00936616 -0.00937417 -0.0497464 0.0497485 0.012391 -0.0123702 1.3731e-05 z2 0.0643132 0.0657114 0.0657522 -0.055837 -0.0558599 0.0142873 0.0143159 0.0704725 0.0704363 -0.0913025 z2 -0.039782 0.0355649 0.035555 -0.0453248 -0.0453443 0.0158574 0.015884 0.00549408 0.00549217 0.0677835 z2 -0.031137 -0.00677167 -0.00676383 0.0066151 0.00661197 -0.020051 -0.0200286 -0.00570242 -0.00573268 -0.00697985 z2 -0.0790728 0.0538023 0.0537619 -0.0282106 -0.0282018 0.0834593 0.0834639 -0.0509563 -0.0509591 0.0415737 z2 0.203602 -0.145369 -0.145385 -0.000483088 -0.000499926 0.105619 0.105632 -0.0429709 -0.0429988 0.00275118 z2"},
{"A4", "4+9+0", 25, 14, "0.106744 0.106759 0.0817998 z1 0.155116 0.155117 0.18261 0.182597 0.144625 0.144615 0.144819 0.144822 0.0629316 0.0629058 0.130911 -0.130933 -7.30036e-06 z1 0.295477 -0.295484 0.150348 -0.150327 0.141396 -0.141368 0.135264 -0.135278 0.0213185 -0.0212805 -0.157755 -0.157757 -0.0968651 z1 -0.167565 -0.167552 -0.20589 -0.205886 0.27873 0.278728 0.279357 0.279356 -0.114594 -0.114603 0.129947 0.129971 0.12891 z1 0.0267989 0.0267777 -0.303738 -0.303725 0.141745 0.14174 -0.141968 -0.141966 0.0745977 0.074533 0.211365 -0.2114 -1.26923e-05 z1 0.046171 -0.0461341 -0.237136 0.237122 0.130603 -0.130568 -0.115272 0.115265 0.0523829 -0.0523087 -0.10147 0.101456 -1.93242e-05 z1 -0.144841 0.144819 -0.107069 0.107074 0.2015 -0.201478 0.196492 -0.196494 -0.0133767 0.0133647 0.039094 0.0391025 0.0462857 z1 -0.0187257 -0.0187511 -0.03347 -0.0334671 0.150152 0.150176 0.150482 0.150469 0.0770506 0.0770834 -0.104664 -0.104649 -0.0180811 z1 -0.0249343 -0.0249296 0.171165 0.171167 0.201658 0.201683 -0.203014 -0.203017 -0.06177 -0.0617829 -0.0067537 -0.00675208 0.155534 z1 -0.304936 -0.304941 0.173245 0.173269 0.000626103 0.000608873 0.000298164 0.000271301 0.077638 0.0775858 0.142483 -0.14251 -1.17593e-05 z1 -0.229816 0.229807 0.150318 -0.15034 0.0293302 -0.0292737 0.00588879 -0.00585902 0.0829581 -0.082872 -0.148952 0.148909 -4.32754e-05 z1 -0.0331057 0.0331154 0.143435 -0.143446 0.170992 -0.170973 -0.15783 0.157816 -0.0308494 0.0308495 -0.0289976 0.0289861 5.43723e-06 z1 -0.0863618 0.0864095 -0.0352211 0.0352014 0.0898652 -0.0898774 0.0944821 -0.0944577 -0.00688264 0.0069313 -0.0137196 -0.0137822 -0.101648 z1 -0.0347631 -0.0347771 0.00324648 0.00328333 -0.0321708 -0.0321614 -0.0334664 -0.0334745 -0.0547767 -0.0547547 -0.0208215 -0.0208147 -0.0434788 z1 0.00282715 0.00279199 0.0818804 0.0818848 0.0894337 0.0894779 -0.0909379 -0.0909566 -0.00965068 -0.00965682 0.00729047 0.00729071 -0.00725643 z1 0.129619 0.129625 -0.0552032 -0.0551898 0.000334075 0.000338743 0.0013345 0.00132649 -0.0576941 -0.0577194 -0.144044 -0.144073 0.17218 z1 -0.0447458 -0.0447124 -0.00291894 -0.00295461 -0.0280325 -0.0280754 0.02846 0.0284743 0.0712296 0.071205 0.00518392 -0.00516631 7.58509e-06 z1 -0.0244754 0.0244583 0.000715904 -0.000672854 0.000949386 -0.000864462 0.0257204 -0.0257686 0.10565 -0.105557 -0.0910561 0.0910284 -4.83899e-05 z1 0.0812384 -0.0812657 -0.0593085 0.059289 0.0261739 -0.0261418 0.00499803 -0.00499706 -0.048552 0.0485772 -0.00802199 0.00801731 -1.06352e-06 z1 -0.000475279 0.000533525 0.0115518 -0.0115262 0.0764618 -0.0764724 -0.0830811 0.0830678 -0.0058326 0.0059212 0.0318964 -0.0318247 1.12031e-05 z1 -0.0136257 0.0136197 0.0255528 -0.0255543 -0.0559337 0.0559122 -0.0471655 0.0471844 0.0023959 -0.00248783 0.0572676 0.0572815 0.0519324 z1 0.0706596 0.0706933 0.0747418 0.0747095 -0.0594695 -0.059482 -0.0615259 -0.061524 0.0467591 0.0468222 0.0262124 0.0261457 -0.0596635 z1 0.000294463 0.000362292 -0.00432169 -0.00436081 -0.0563059 -0.0563129 0.0576245 0.0575966 0.0147889 0.0148815 -0.00484361 -0.00485084 -0.0286474 z1 0.0172797 0.0172746 -0.0113495 -0.0113671 -0.000539216 -0.000516634 0.00145601 0.00147968 -0.00632364 -0.00631082 0.0864103 0.0863837 -0.0225833 z1 0.0263146 0.0263535 -0.049661 -0.0497005 -0.0253888 -0.0254222 0.0251209 0.0251067 -0.0651038 -0.0651258 -0.172814 -0.172848 0.167298 z1 0.122134 0.122119 -0.041735 -0.0417341 0.00562975 0.00560945 0.0061168 0.00611549 0.0435696 0.0435695"},
{"A4", "9+10+3", 25, 24, "0.0382321 0.0382348 0.0229249 z1 0.13632 0.136318 0.0387973 0.0387989 0.136318 z1 0.12451 0.124513 0.051609 0.0515954 0.0577651 0.126802 0.056281 0.0562709 0.0570179 0.0570189 0.0562744 0.0934555 0.0872926 0.0872838 0.0966508 -0.0966537 1.20732e-05 z1 0.17226 -0.172266 0.0509345 -0.0509372 -9.04136e-06 z1 0.21248 -0.212497 0.0811116 -0.0811056 1.12042e-05 1.45268e-05 0.0891827 -0.0891749 0.128501 -0.128502 7.28428e-06 -5.02651e-06 0.077083 -0.0770669 0.000298906 0.000288005 -2.10271e-05 z1 -0.174459 -0.174446 2.57223e-06 1.38066e-05 -0.17444 z1 -0.178023 -0.178013 0.0878858 0.0878619 0.0927086 0.32141 0.0918473 0.0918218 0.092272 0.0922716 0.091831 -0.183914 -0.179062 -0.179074 0.0506237 0.0506341 0.0667802 z1 -0.172262 -0.172266 0.0982845 0.0982846 -0.24362 z1 -0.0135611 -0.0135597 0.0811207 0.0810958 0.130884 -5.90823e-06 -0.089194 -0.0891887 -6.64415e-05 -7.05904e-05 -0.126125 0.125193 0.0771012 0.0770684 0.117973 -0.117989 3.12972e-05 z1 -0.269372 0.269375 0.118841 -0.118841 8.16594e-06 z1 -0.0336257 0.033612 0.118724 -0.118709 1.90465e-05 5.381e-06 -0.127252 0.127252 0.000284125 -0.000272973 -1.31301e-05 -6.38372e-06 0.114264 -0.114219 0.000821752 -0.000800829 -6.89171e-07 z1 -0.103668 0.103668 -2.60492e-06 -1.18545e-05 3.29764e-06 z1 -0.155858 0.155852 0.121468 -0.121448 1.84105e-05 2.59566e-05 0.127976 -0.127947 0.182382 -0.182371 1.25114e-05 6.99916e-06 -0.112787 0.112793 -0.0802651 -0.080278 -0.0524365 z1 0.0165569 0.0165421 -0.0815375 -0.0815298 0.0165465 z1 0.0411696 0.0411496 0.0139216 0.0139086 0.00224122 0.373377 0.00544041 0.00541062 0.0038393 0.00383956 0.00542569 0.110512 0.122125 0.12219 0.000147043 0.000131362 -5.43932e-05 z1 0.103659 0.103646 6.62115e-06 3.00876e-05 0.146579 z1 -0.0026957 -0.00268674 0.121475 0.121461 0.183767 -7.05027e-06 -0.12798 -0.127981 -0.000164179 -0.00016237 -0.180973 -0.171508 -0.112807 -0.112799 -0.0814258 -0.0814109 0.0908296 z1 -1.1018e-06 7.47e-06 0.0835988 0.0835901 0.269382 z1 -0.23825 -0.238261 1.59277e-05 -2.7363e-05 0.135226 1.78553e-06 1.88804e-05 1.13213e-05 -0.131235 -0.131241 0.127256 0.130776 2.00651e-05 4.73634e-07 -0.0188161 0.0187805 5.05345e-05 z1 0.166087 -0.166093 0.159572 -0.15956 -5.52748e-06 z1 -0.217513 0.217527 0.0735406 -0.0734816 1.95032e-05 -1.0289e-05 0.0726669 -0.0726556 -0.108396 0.108398 1.76798e-05 2.50191e-06 0.0715732 -0.0715114 0.000434298 -0.000400525 -1.96979e-06 z1 0.146142 -0.146123 -6.41548e-06 -2.1518e-05 1.44915e-05 z1 -0.00751278 0.00750657 0.176442 -0.176442 2.83733e-05 8.9223e-06 -0.183811 0.183811 -9.03622e-05 8.62424e-05 -1.74935e-05 1.37593e-05 -0.166282 0.16627 -0.101749 0.101765 -1.33689e-05 z1 -0.0514278 0.0514233 -0.0552484 0.0552453 -1.20161e-05 z1 -0.0403065 0.0403304 0.0650334 -0.0649995 1.55109e-05 2.19062e-05 0.0586634 -0.058621 0.0804596 -0.0804275 1.60561e-05 3.41171e-06 0.0544778 -0.0545274 -0.000950512 -0.000932604 5.10455e-05 z1 -0.0274967 -0.027489 -3.06677e-06 -3.31812e-05 -0.0275084 z1 -0.0173741 -0.017383 -0.0715914 -0.0715989 -0.0855747 0.279591 -0.0828494 -0.0828746 -0.0842306 -0.0842047 -0.0828517 -0.000150075 -0.0140342 -0.0140945 -0.0548496 -0.0548763 -0.0821174 z1 0.051432 0.0514424 -0.103689 -0.103663 0.0727264 z1 0.0146035 0.0145858 0.06503 0.0650551 0.0779213 3.54581e-06 -0.0586456 -0.0586558 -6.53447e-05 -5.7087e-05 -0.0829355 0.0630355 0.0544779 0.0545285 -0.00117663 -0.00116783 -7.50871e-05 z1 2.04647e-05 2.16747e-05 1.12463e-05 2.314e-05 -0.146113 z1 0.157918 0.157907 1.30105e-05 -6.44535e-08 0.189235 5.21107e-06 1.09147e-05 3.78885e-05 -0.186523 -0.186534 0.183812 -0.179083 -1.76308e-05 -1.25257e-05 -0.157998 -0.157997 0.106028 z1 0.166079 0.166079 0.0212421 0.0212263 -0.234897 z1 0.0504659 0.0504429 -0.0735048 -0.0735524 0.11403 -9.37428e-06 0.0726349 0.0726558 -0.00164507 -0.00162643 -0.102758 0.111281 -0.0715258 -0.0715218 -0.1472 0.147166 6.31349e-05 z1 -4.74528e-06 1.21703e-05 0.149527 -0.149498 6.02173e-06 z1 0.0567816 -0.0567442 3.14642e-05 6.50806e-05 1.77207e-05 3.4112e-06 -1.70595e-05 -1.82191e-05 -0.00417052 0.00414583 -2.46097e-05 9.31619e-06 3.0294e-05 2.05361e-05 -0.00143526 0.00145147 -2.93971e-06 z1 -0.0834753 0.0834518 -8.43694e-06 -1.21732e-05 -2.29001e-05 z1 0.129669 -0.129686 0.107722 -0.107713 1.859e-05 -1.85503e-05 0.106991 -0.107016 -0.155688 0.155716 9.87132e-06 8.29871e-06 -0.102965 0.102936 -0.0911502 0.0911948 -2.46895e-05 z1 0.0241005 -0.0241099 -0.0919966 0.0919816 7.28897e-06 z1 0.0258966 -0.0258883 0.118258 -0.118281 2.81454e-05 6.40272e-06 -0.114393 0.114397 -0.00051182 0.000493576 -2.71812e-05 -3.28287e-06 0.103914 -0.103968 -0.00176946 0.00176013 3.14936e-06 z1 0.0122672 -0.012258 7.29687e-06 2.09883e-05 3.00428e-05 z1 0.0341589 -0.0341409 -0.0216465 0.0216784 5.63327e-06 6.64356e-06 -0.0334985 0.033525 -0.0501917 0.0502159 1.62803e-05 -2.04731e-05 0.0295127 -0.0294674 0.0693101 0.0693411 0.0572998 z1 0.0697161 0.0696904 0.070615 0.0705843 0.0696966 z1 0.0490473 0.04905 -0.0711005 -0.0711156 -0.0647958 0.111984 -0.0675856 -0.0676076 -0.0662448 -0.0661641 -0.0675825 -0.02243 -0.0288305 -0.0288181 -0.000324381 -0.000307404 7.68509e-05 z1 -0.0122552 -0.0122646 -2.34979e-06 -4.00748e-05 -0.0173046 z1 0.00491272 0.00494003 -0.0216514 -0.02162 -0.0530259 2.06768e-05 0.0335239 0.0335204 0.000272919 0.000271809 0.0473865 0.0640735 0.0295271 0.0294891 0.0580536 0.0580388 -0.0849952 z1 -1.11984e-05 -1.06892e-05 -0.0599502 -0.0599103 -0.0240969 z1 0.00187408 0.00190091 -3.99764e-06 5.84172e-05 0.108943 9.714e-06 -1.25879e-05 4.85232e-05 -0.111677 -0.111682 0.114393 0.0946009 -6.33625e-06 1.20546e-05 -0.000837558 -0.000798274 -9.02694e-05 z1 -0.0834916 -0.0834871 1.69601e-05 7.9972e-06 0.118048 z1 0.0134201 0.0133941 -0.107693 -0.107738 0.160081 -1.73195e-05 0.106976 0.106975 -0.000862674 -0.000867652 -0.151316 -0.153384 0.102917 0.102917 -0.0567857 -0.056819 0.112703 z1 -0.162936 -0.162948 -0.0544014 -0.0544128 0.162973 z1 0.167871 0.16787 -0.0812806 -0.0812704 0.0801485 2.59369e-05 -0.0670244 -0.0670335 0.0736127 0.0736016 0.0670429 0.0788286 -0.0798784 -0.0798577"},
{"A4", "0+7+0", 25, 8, "0.210237 0.210239 0.163742 z1 0.233094 0.233088 0.284197 0.284185 0.211274 -0.211271 1.09551e-05 z1 0.369324 -0.36932 0.217807 -0.217799 2.8984e-05 -7.70557e-06 -3.6102e-05 z1 -1.53989e-05 -2.51119e-07 -6.76758e-06 -1.42479e-05 0.251966 0.251974 0.226865 z1 0.0418108 0.0417942 -0.399064 -0.399061 0.339958 -0.339954 3.261e-05 z1 0.0671646 -0.0671333 -0.321659 0.321664 1.88413e-06 2.17547e-05 -2.17398e-05 z1 -7.52134e-06 -9.21259e-06 -1.17012e-06 2.438e-05 0.150726 0.150746 0.1745 z1 0.138365 0.138373 0.120973 0.12094 1.82729e-05 8.24287e-06 -1.84215e-05 z1 -1.22078e-05 1.32688e-05 6.66429e-06 -4.99427e-06 0.0506015 0.0506201 0.256292 z1 -0.36789 -0.367899 0.19069 0.190701 0.251397 -0.251412 3.82453e-05 z1 -0.265977 0.266 0.174924 -0.174926 1.27282e-05 4.36094e-06 -1.66041e-05 z1 -5.7298e-07 -3.27935e-06 -1.64844e-06 1.08664e-05 0.0140548 -0.0140506 7.22194e-06 z1 0.0240291 -0.0240183 0.0158566 -0.0158287 8.41984e-05 2.58467e-05 -5.01031e-05 z1 -1.37211e-05 1.10504e-05 1.99406e-05 1.82237e-05 0.0304224 0.0304424 0.0251677 z1 0.0189448 0.0189419 -0.0295828 -0.0295844 1.55806e-05 3.73159e-05 -4.68584e-06 z1 -2.48526e-06 -8.0248e-07 1.43955e-05 3.48895e-05 -0.137642 -0.137639 0.270115 z1 -0.0620141 -0.0620042 0.036979 0.0369789 0.0822126 -0.0821905 4.74904e-05 z1 -0.0352726 0.0353143 0.0329192 -0.0328961 2.31739e-05 -2.23063e-05 -7.82608e-06 z1 -3.5409e-06 1.50317e-05 2.85416e-05 -2.52511e-05 0.0900751 -0.0900735 3.17662e-05 z1 0.0198378 -0.0198304 -0.0896653 0.089652 4.24182e-05 1.45527e-05 -3.6445e-05 z1 -1.33e-05 -7.27419e-06 3.62581e-05 2.46833e-05 0.046506 0.0465445 0.0612149 z1 0.0396818 0.0397397 0.0210568 0.0210032 5.54143e-05 9.07463e-06 -3.60528e-05 z1 -3.69639e-05 3.78969e-05 2.30923e-05 -1.56377e-05 0.00119632 0.00123182 0.0528887 z1 -0.10774 -0.107749 0.0580351 0.0580609 -8.872e-06 -1.25158e-06 -6.73887e-06 z1 -1.13467e-05 -2.62739e-06 -2.64395e-06 -4.39552e-06 -0.176787 -0.176801 0.241959 z1 0.137446 0.13745 -0.0615592 -0.0615646"},
{"A4", "4+7+0", 25, 12, "0.122739 0.122747 0.112474 z1 0.15608 0.156081 0.183065 0.183052 0.142271 0.142263 0.142508 0.142511 0.138685 -0.138693 4.90334e-06 z1 0.290133 -0.290142 0.147587 -0.147568 0.13909 -0.139063 0.133105 -0.13312 -0.177701 -0.177726 -0.131475 z1 -0.173819 -0.173806 -0.211342 -0.211337 0.274256 0.274256 0.2749 0.274899 0.163117 0.163118 0.197158 z1 0.0264249 0.0264041 -0.298213 -0.298201 0.139362 0.139362 -0.139703 -0.139701 0.23281 -0.232815 7.34689e-06 z1 0.045364 -0.0453304 -0.232979 0.232962 0.1284 -0.128367 -0.113433 0.113426 -0.105437 0.105442 -2.06865e-05 z1 -0.141175 0.141158 -0.104579 0.104589 0.198255 -0.198235 0.193357 -0.193359 0.0364507 0.0364883 0.030706 z1 -0.00743788 -0.00746282 -0.0221949 -0.0221922 0.147856 0.147877 0.148081 0.148068 -0.129817 -0.12984 -0.0719261 z1 -0.0246636 -0.0246592 0.16691 0.166911 0.198374 0.198405 -0.199775 -0.199778 0.0328687 0.0328539 0.229968 z1 -0.30002 -0.300025 0.169955 0.169979 0.000497522 0.000488233 0.000293406 0.000266972 0.180374 -0.180364 4.90119e-06 z1 -0.225903 0.225892 0.147802 -0.147825 0.0287006 -0.0286475 0.00579483 -0.00576554 -0.160297 0.160302 -3.80958e-05 z1 -0.0324089 0.0324258 0.14029 -0.140294 0.168188 -0.168173 -0.155312 0.155298 -0.0326494 0.0326329 2.51917e-05 z1 -0.086632 0.0866707 -0.0356148 0.0355876 0.0884849 -0.0884985 0.0929747 -0.0929507 -0.0098511 -0.00988988 -0.0833407 z1 -0.0435717 -0.0435856 -0.00595942 -0.00592309 -0.0315744 -0.0315706 -0.0329324 -0.0329404 -0.0295589 -0.0295328 -0.0597773 z1 0.00295947 0.00292531 0.0825765 0.082581 0.0881423 0.0881823 -0.089487 -0.0895054 -0.0226851 -0.02272 -0.0658055 z1 0.12738 0.127386 -0.0531391 -0.0531257 0.000262622 0.000273294 0.00131321 0.00130533 -0.105791 -0.10582 0.235136 z1 -0.0438241 -0.0437912 -0.00282706 -0.00286198 -0.0276523 -0.0276836 0.0280059 0.02802 0.0573726 -0.0573227 1.16341e-05 z1 -0.0240795 0.0240623 0.000635231 -0.000593719 0.000784145 -0.00070649 0.02531 -0.0253575 -0.112405 0.112444 -4.01771e-05 z1 0.07935 -0.07937 -0.058064 0.0580507 0.0256447 -0.0256186 0.00491829 -0.00491733 -0.0118516 0.011839 4.15277e-05 z1 -0.000724757 0.00076805 0.012589 -0.0125781 0.0753309 -0.0753452 -0.0817555 0.0817425 0.0329089 -0.032872 -1.65406e-05 z1 -0.0121772 0.0121808 0.025869 -0.0258615 -0.0549796 0.0549601 -0.046413 0.0464316 0.0657779 0.0658187 0.0643783 z1 0.0750666 0.0750996 0.0790132 0.0789814 -0.0586126 -0.0586252 -0.0605443 -0.0605424 0.0356009 0.035591 -0.0398222 z1 0.000128847 0.000195013 -0.00599962 -0.00603805 -0.0552691 -0.0552849 0.0567051 0.0566776 -0.00677853 -0.00677067 -0.0311685 z1 0.0173643 0.0173595 -0.0128192 -0.0128366 -0.000430314 -0.000413735 0.00143278 0.00145608 0.0538568 0.0538163 -0.0791528 z1 0.0253893 0.0254274 -0.049002 -0.0490412 -0.0250175 -0.0250437 0.0247201 0.0247061 -0.145516 -0.145532 0.203808 z1 0.119978 0.119963 -0.0410979 -0.041097 0.00553856 0.00553328 0.00601921 0.00601792"},
{"A4", "7.1.5.4", 25, 17, "0.034632 0.0346382 0.0609465 z1 0.0786684 0.0786794 0.0813393 0.0813211 0.109346 0.109337 0.109586 0.109589 0.0994798 0.143291 0.143302 0.143552 0.143549 0.0657081 -0.0657156 -1.42968e-06 z1 0.210943 -0.210969 0.077008 -0.0769665 0.146922 -0.146886 0.140894 -0.1409 -7.30941e-06 -0.140057 0.140081 0.134086 -0.134087 -3.6398e-06 -3.39529e-06 1.03855e-05 z1 -3.2258e-06 -2.39454e-06 4.6333e-07 -9.60149e-07 0.186342 0.18634 0.186993 0.186991 0.259846 -0.276254 -0.276245 -0.276911 -0.276893 0.0737577 0.0737722 0.167697 z1 0.0109333 0.0109216 -0.197138 -0.197118 0.147195 0.147195 -0.14753 -0.147529 -1.10926e-05 0.140358 0.140379 -0.140719 -0.140721 0.125179 -0.125187 -7.42425e-07 z1 0.0234429 -0.0234148 -0.144011 0.143974 0.133114 -0.133084 -0.118042 0.118031 5.39398e-06 -0.129308 0.129316 -0.114247 0.114252 -1.55507e-05 2.50344e-06 -8.1566e-07 z1 -7.05985e-06 4.52984e-06 2.60423e-07 -5.75995e-06 0.215184 -0.215144 0.21025 -0.210234 -1.56396e-05 0.199668 -0.199677 -0.194769 0.194758 -0.0789517 -0.0789702 -0.114669 z1 -0.154948 -0.154978 -0.167053 -0.167015 0.033207 0.0332267 0.0334335 0.0334202 0.323595 0.148989 0.148927 0.14916 0.149128 1.39969e-06 -8.64222e-06 1.9564e-05 z1 1.52636e-05 -3.48815e-06 2.72327e-07 5.67457e-06 0.215299 0.21533 -0.216695 -0.216701 -1.95219e-05 -0.199827 -0.199825 0.201235 0.201232 0.0150034 0.0150149 0.204055 z1 -0.23231 -0.232319 0.149541 0.149595 0.000499844 0.000490828 0.000298596 0.000272804 -4.34988e-06 0.000500133 0.000511233 0.000277959 0.000259478 0.109089 -0.109089 6.81513e-06 z1 -0.186072 0.186052 0.120871 -0.120921 0.0293234 -0.0292578 0.00625342 -0.00621329 -1.0824e-05 -0.0288861 0.0288897 0.00581989 -0.00578443 -1.74442e-05 6.46981e-06 -2.5169e-06 z1 3.14068e-05 7.01142e-06 3.47717e-06 3.22325e-07 0.178336 -0.178327 -0.165374 0.16535 1.06851e-05 0.169402 -0.169392 0.156425 -0.156432 -0.0799729 0.0799868 -9.09709e-07 z1 -0.198836 0.198877 -0.0877512 0.0877074 0.109912 -0.109902 0.114434 -0.114388 -1.82851e-05 -0.0891628 0.0891339 0.0936326 -0.0936221 7.34167e-06 9.23726e-06 -2.46723e-05 z1 6.44874e-06 1.88327e-06 -3.04245e-06 -2.81976e-06 -0.139109 -0.139104 -0.14048 -0.140489 0.279304 0.0317672 0.0318178 0.0331712 0.0331937 -0.0902612 -0.0902885 -0.145899 z1 -0.0132295 -0.0132294 0.196289 0.196265 0.109559 0.1096 -0.110903 -0.110924 -1.36909e-05 0.0888241 0.0887957 -0.0901543 -0.0901451 3.25297e-05 -1.16793e-05 1.44803e-06 z1 6.0684e-06 2.85319e-06 -3.83879e-06 -1.52207e-05 0.000262269 0.000273107 0.00132882 0.00132192 -8.18308e-06 -0.000276339 -0.000267591 -0.0013094 -0.00131496 -0.0739749 -0.0739548 0.200513 z1 -0.0255544 -0.0255119 -0.0431013 -0.0431902 -0.0282634 -0.0282937 0.028622 0.0286352 -7.05e-06 -0.0278984 -0.0278501 0.0281981 0.0282397 0.0323608 -0.0323701 2.42104e-05 z1 -0.0128244 0.0127774 -0.032011 0.0321203 0.000784203 -0.000711822 0.0254932 -0.0255388 2.32485e-06 -0.000702034 0.000766742 0.0254738 -0.0255445 1.77453e-05 1.34203e-05 -6.27984e-06 z1 2.34501e-06 3.90686e-06 -8.74585e-06 2.28082e-05 0.0266546 -0.0266019 0.00578206 -0.0057576 -2.24335e-05 0.0258272 -0.0257971 -0.00493487 0.00494109 -0.114953 0.114971 -6.60901e-06 z1 -0.0215649 0.0215684 0.116035 -0.116001 0.0892289 -0.0892478 -0.095708 0.0956838 1.15811e-05 -0.0758922 0.0758793 -0.0823405 0.0823444 2.56361e-05 -3.58724e-06 -1.00652e-06 z1 6.68465e-06 -5.67264e-08 -2.68735e-06 2.09805e-05 -0.0363549 0.0363508 -0.0277268 0.0277596 -1.11795e-05 -0.0553405 0.0553613 0.0467693 -0.0467494 0.0855395 0.0855708 0.0677208 z1 0.111058 0.111097 0.137888 0.137859 -0.134162 -0.134173 -0.136113 -0.136112 0.163666 -0.0590657 -0.0590628 -0.0609693 -0.0609865 -1.04806e-05 1.4984e-05 -2.6849e-05 z1 -2.2297e-05 6.22621e-06 1.59699e-06 -1.73684e-06 -0.0366549 -0.0366717 0.0380989 0.0380707 6.06162e-06 0.0556729 0.0556584 -0.0571041 -0.0571096 -0.0148234 -0.0148436 -0.11629 z1 0.143943 0.14396 -0.0845423 -0.0845658 -0.000435221 -0.000419692 0.0014496 0.00147285 -7.67887e-06 -0.000426815 -0.000443149 0.00145423 0.00147849 5.81599e-05 -1.41067e-05 -3.49646e-05 z1 -2.98433e-05 5.93229e-06 1.06767e-06 6.05863e-06 -0.0260135 -0.0260378 0.0257186 0.0257029 -1.4238e-05 0.0252288 0.0252015 -0.0248972 -0.0249064 -0.114391 -0.114347 0.165913 z1 0.102693 0.102655 -0.0205707 -0.0205597 0.00925274 0.00925052 0.00973679 0.00973861 -0.00876127 0.00555388 0.00556836 0.00607471 0.00607477"},
{"A4", "3.1.2", 25, 6, "0.45585 0.455853 0.0983717 z1 0.11074 0.110728 0.507681 -0.507672 1.12526e-05 z1 0.0948407 -0.0948319 -0.171634 -0.171635 -0.127945 z1 0.215756 0.215758 -0.0860014 -0.0859899 0.184698 z1 0.139919 0.13989 0.209142 -0.209147 3.10851e-05 z1 0.120674 -0.120649 -0.122908 0.12293 -9.05599e-06 z1 0.137042 -0.137047 0.059766 0.0597544 0.0346487 z1 0.123044 0.12308 -0.145925 -0.145928 -0.11495 z1 0.211703 0.211706 -0.0945735 -0.0945543 0.20573 z1 0.0360212 0.0359879 0.00953919 -0.00955327 3.91009e-05 z1 0.0672426 -0.0672055 -0.146208 0.146199 -2.85324e-05 z1 0.171676 -0.171671 -0.0215111 0.0214997 4.14137e-06 z1 0.0642697 -0.0642922 -0.0174125 -0.0174287 -0.0651904 z1 -0.0111938 -0.0111849 -0.0342808 -0.0342907 -0.0177472 z1 0.122508 0.122552 0.00592022 0.00592059 -0.0828874 z1 0.0432309 0.0432357 -0.172471 -0.172435 0.219693 z1 -0.00582927 -0.005879 0.0111906 -0.0111884 3.65974e-05 z1 0.0299387 -0.0298887 -0.074345 0.0743215 -2.56549e-05 z1 0.0894186 -0.0894134 -0.0497065 0.0497359 2.56026e-05 z1 0.101846 -0.101862 0.00447966 -0.00450065 -1.22458e-05 z1 -0.0354355 0.0354313 0.103337 0.103366 0.0823315 z1 -0.0295814 -0.0296121 -0.0158104 -0.0158245 -0.0403156 z1 -0.0139687 -0.0139825 -0.0175842 -0.017598 -0.0390022 z1 0.00749153 0.00753781 0.0427826 0.042807 -0.0932963 z1 -0.00942221 -0.00944686 -0.095283 -0.0952469 0.203358 z1 0.00287384 0.00283843"},
{"A4", "7.1.2", 25, 10, "0.122739 0.122747 0.112474 z1 0.15608 0.156081 0.183065 0.183052 0.24304 0.243034 0.138685 -0.138693 4.90334e-06 z1 0.290133 -0.290142 0.147587 -0.147568 0.23321 -0.233192 -0.177701 -0.177726 -0.131475 z1 -0.173819 -0.173806 -0.211342 -0.211337 0.46864 0.468639 0.163117 0.163118 0.197158 z1 0.0264249 0.0264041 -0.298213 -0.298201 0.0405777 0.0405786 0.23281 -0.232815 7.34689e-06 z1 0.045364 -0.0453304 -0.232979 0.232962 0.0481913 -0.0481621 -0.105437 0.105442 -2.06865e-05 z1 -0.141175 0.141158 -0.104579 0.104589 0.334979 -0.334961 0.0364507 0.0364883 0.030706 z1 -0.00743788 -0.00746282 -0.0221949 -0.0221922 0.252565 0.252577 -0.129817 -0.12984 -0.0719261 z1 -0.0246636 -0.0246592 0.16691 0.166911 0.0571125 0.0571403 0.0328687 0.0328539 0.229968 z1 -0.30002 -0.300025 0.169955 0.169979 0.000704992 0.000677011 0.180374 -0.180364 4.90119e-06 z1 -0.225903 0.225892 0.147802 -0.147825 0.0327981 -0.0327243 -0.160297 0.160302 -3.80958e-05 z1 -0.0324089 0.0324258 0.14029 -0.140294 0.0583654 -0.0583602 -0.0326494 0.0326329 2.51917e-05 z1 -0.086632 0.0866707 -0.0356148 0.0355876 0.154228 -0.154225 -0.0098511 -0.00988988 -0.0833407 z1 -0.0435717 -0.0435856 -0.00595942 -0.00592309 -0.0548611 -0.054863 -0.0295589 -0.0295328 -0.0597773 z1 0.00295947 0.00292531 0.0825765 0.082581 0.0248655 0.0248924 -0.0226851 -0.02272 -0.0658055 z1 0.12738 0.127386 -0.0531391 -0.0531257 0.0011912 0.0011963 -0.105791 -0.10582 0.235136 z1 -0.0438241 -0.0437912 -0.00282706 -0.00286198 -0.00784914 -0.00787045 0.0573726 -0.0573227 1.16341e-05 z1 -0.0240795 0.0240623 0.000635231 -0.000593719 0.018681 -0.018637 -0.112405 0.112444 -4.01771e-05 z1 0.07935 -0.07937 -0.058064 0.0580507 0.0291225 -0.0290956 -0.0118516 0.011839 4.15277e-05 z1 -0.000724757 0.00076805 0.012589 -0.0125781 0.017521 -0.0175446 0.0329089 -0.032872 -1.65406e-05 z1 -0.0121772 0.0121808 0.025869 -0.0258615 -0.0877986 0.0877922 0.0657779 0.0658187 0.0643783 z1 0.0750666 0.0750996 0.0790132 0.0789814 -0.101424 -0.101435 0.0356009 0.035591 -0.0398222 z1 0.000128847 0.000195013 -0.00599962 -0.00603805 -0.0151726 -0.0152077 -0.00677853 -0.00677067 -0.0311685 z1 0.0173643 0.0173595 -0.0128192 -0.0128366 0.000582814 0.000615866 0.0538568 0.0538163 -0.0791528 z1 0.0253893 0.0254274 -0.049002 -0.0490412 -0.00753774 -0.00757387 -0.145516 -0.145532 0.203808 z1 0.119978 0.119963 -0.0410979 -0.041097 0.00979479 0.00978859"},
{"A4", "9.1.6", 25, 16, "0.0382321 0.0382348 0.11638 z1 0.232711 0.232709 0.166936 0.166929 0.12451 0.124513 0.11501 0.114997 0.159474 0.159464 0.0570179 0.0570189 0.0966508 -0.0966537 7.04667e-06 z1 0.172254 -0.172272 0.128026 -0.127996 0.21248 -0.212497 0.0811188 -0.0810984 0.0891952 -0.0891624 0.128501 -0.128502 0.000298906 0.000288005 -0.183935 z1 -0.297807 -0.297794 -0.113505 -0.113506 -0.178023 -0.178013 0.248591 0.248567 0.317487 0.317461 0.092272 0.0922716 0.0506237 0.0506341 0.191973 z1 -0.344528 -0.344532 0.267935 0.267902 -0.0135611 -0.0135597 0.0811177 0.0810929 -0.178381 -0.178375 -6.64415e-05 -7.05904e-05 0.117973 -0.117989 2.49135e-05 z1 -0.269366 0.269381 0.233118 -0.233047 -0.0336257 0.033612 0.118727 -0.118707 -0.127259 0.127246 0.000284125 -0.000272973 0.000821752 -0.000800829 6.30999e-06 z1 -0.103666 0.103671 -0.112776 0.112794 -0.155858 0.155852 0.121481 -0.121435 0.127998 -0.127926 0.182382 -0.182371 -0.0802651 -0.080278 0.0580752 z1 0.028257 0.0282422 0.0421727 0.0422445 0.0411696 0.0411496 0.20061 0.200597 0.195966 0.195936 0.0038393 0.00383956 0.000147043 0.000131362 -0.171563 z1 0.207306 0.207293 0.0171426 0.0171742 -0.0026957 -0.00268674 0.121472 0.121458 -0.255951 -0.255951 -0.000164179 -0.00016237 -0.0814258 -0.0814109 0.221606 z1 0.19048 0.190489 0.179238 0.179209 -0.23825 -0.238261 1.68205e-05 -2.64702e-05 0.0900034 0.0899958 -0.131235 -0.131241 -0.0188161 0.0187805 5.30364e-05 z1 0.166083 -0.166097 0.231159 -0.231058 -0.217513 0.217527 0.0735354 -0.0734867 0.0726743 -0.0726483 -0.108396 0.108398 0.000434298 -0.000400525 1.17895e-05 z1 0.146153 -0.146113 -0.166268 0.166269 -0.00751278 0.00750657 0.176447 -0.176437 -0.183819 0.183804 -9.03622e-05 8.62424e-05 -0.101749 0.101765 -9.95721e-06 z1 -0.0514363 0.0514148 -0.000759685 0.000728855 -0.0403065 0.0403304 0.0650444 -0.0649885 0.0586857 -0.0585987 0.0804596 -0.0804275 -0.000950512 -0.000932604 -9.90298e-05 z1 -0.0469481 -0.0469404 -0.0745477 -0.0746382 -0.0173741 -0.017383 0.0682043 0.0681968 -0.00163865 -0.00166391 -0.0842306 -0.0842047 -0.0548496 -0.0548763 -0.0190818 z1 0.102857 0.102868 0.00588753 0.00596457 0.0146035 0.0145858 0.0650317 0.0650569 -0.117288 -0.117298 -6.53447e-05 -5.7087e-05 -0.00117663 -0.00116783 -0.179159 z1 -0.103297 -0.103296 0.133803 0.13382 0.157918 0.157907 1.5616e-05 2.54108e-06 0.129988 0.130015 -0.186523 -0.186534 -0.157998 -0.157997 0.217309 z1 -1.824e-05 -1.83111e-05 0.0303475 0.0303358 0.0504659 0.0504429 -0.0735095 -0.0735571 -3.05569e-05 -9.60983e-06 -0.00164507 -0.00162643 -0.1472 0.147166 7.24511e-05 z1 -4.87279e-07 1.64283e-05 0.14957 -0.149465 0.0567816 -0.0567442 3.31698e-05 6.67862e-05 -3.27556e-05 -3.39152e-05 -0.00417052 0.00414583 -0.00143526 0.00145147 5.359e-06 z1 -0.0834915 0.0834356 -0.10296 0.102937 0.129669 -0.129686 0.107713 -0.107722 0.106989 -0.107018 -0.155688 0.155716 -0.0911502 0.0911948 -2.79724e-05 z1 0.0241057 -0.0241047 0.0119368 -0.0119664 0.0258966 -0.0258883 0.118262 -0.118277 -0.114409 0.114381 -0.00051182 0.000493576 -0.00176946 0.00176013 -1.73238e-05 z1 0.0122884 -0.0122367 0.029524 -0.0294425 0.0341589 -0.0341409 -0.0216432 0.0216817 -0.0334837 0.0335398 -0.0501917 0.0502159 0.0693101 0.0693411 0.0348698 z1 0.118999 0.118973 -0.00403307 -0.00405137 0.0490473 0.04905 -0.0151084 -0.0151235 -0.0593816 -0.0594036 -0.0662448 -0.0661641 -0.000324381 -0.000307404 0.0641503 z1 -0.0244914 -0.0245008 -0.00797025 -0.00804595 0.00491272 0.00494003 -0.021641 -0.0216096 0.0670415 0.067038 0.000272919 0.000271809 0.0580536 0.0580388 0.00960562 z1 -0.0170503 -0.0170498 0.017078 0.0171364 0.00187408 0.00190091 8.59365e-07 6.32742e-05 0.0808805 0.0809416 -0.111677 -0.111682 -0.000837558 -0.000798274 -0.153474 z1 -1.92e-05 -1.47389e-05 0.216128 0.216119 0.0134201 0.0133941 -0.107702 -0.107746 -2.93031e-05 -2.99724e-05 -0.000862674 -0.000867652 -0.0567857 -0.056819 0.191532 z1 -0.047697 -0.0477083 -0.0776062 -0.0775968 0.167871 0.16787 -0.0812676 -0.0812575 -0.0196049 -0.019614 0.0736127 0.0736016"},
