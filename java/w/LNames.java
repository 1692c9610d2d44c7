package w;
/* generated by tools/gennames.py */
class LNames {
  static String[] of(int g) {
    switch (g) {
    case 0: return ("w.C0_0$In w.C0_0$Inner w.C0_0 w.C0_1$In w.C0_1$Inner w.C0_1 w.C0_2$In w.C0_2$Inner"
      + " w.C0_2 w.C0_3$In w.C0_3$Inner w.C0_3 w.C0_4$In w.C0_4$Inner w.C0_4 w.C0_5$In"
      + " w.C0_5$Inner w.C0_5 w.E0$1 w.E0$2 w.E0 w.G0 w.I0_0 w.I0_1"
      + " w.I0_2").split(" ");
    case 1: return ("w.C1_0$In w.C1_0$Inner w.C1_0 w.C1_1$In w.C1_1$Inner w.C1_1 w.C1_2$In w.C1_2$Inner"
      + " w.C1_2 w.C1_3$In w.C1_3$Inner w.C1_3 w.C1_4$In w.C1_4$Inner w.C1_4 w.C1_5$In"
      + " w.C1_5$Inner w.C1_5 w.E1$1 w.E1$2 w.E1 w.G1 w.I1_0 w.I1_1"
      + " w.I1_2").split(" ");
    case 2: return ("w.C2_0$In w.C2_0$Inner w.C2_0 w.C2_1$In w.C2_1$Inner w.C2_1 w.C2_2$In w.C2_2$Inner"
      + " w.C2_2 w.C2_3$In w.C2_3$Inner w.C2_3 w.C2_4$In w.C2_4$Inner w.C2_4 w.C2_5$In"
      + " w.C2_5$Inner w.C2_5 w.E2$1 w.E2$2 w.E2 w.G2 w.I2_0 w.I2_1"
      + " w.I2_2").split(" ");
    case 3: return ("w.C3_0$In w.C3_0$Inner w.C3_0 w.C3_1$In w.C3_1$Inner w.C3_1 w.C3_2$In w.C3_2$Inner"
      + " w.C3_2 w.C3_3$In w.C3_3$Inner w.C3_3 w.C3_4$In w.C3_4$Inner w.C3_4 w.C3_5$In"
      + " w.C3_5$Inner w.C3_5 w.E3$1 w.E3$2 w.E3 w.G3 w.I3_0 w.I3_1"
      + " w.I3_2").split(" ");
    case 4: return ("w.C4_0$In w.C4_0$Inner w.C4_0 w.C4_1$In w.C4_1$Inner w.C4_1 w.C4_2$In w.C4_2$Inner"
      + " w.C4_2 w.C4_3$In w.C4_3$Inner w.C4_3 w.C4_4$In w.C4_4$Inner w.C4_4 w.C4_5$In"
      + " w.C4_5$Inner w.C4_5 w.E4$1 w.E4$2 w.E4 w.G4 w.I4_0 w.I4_1"
      + " w.I4_2").split(" ");
    case 5: return ("w.C5_0$In w.C5_0$Inner w.C5_0 w.C5_1$In w.C5_1$Inner w.C5_1 w.C5_2$In w.C5_2$Inner"
      + " w.C5_2 w.C5_3$In w.C5_3$Inner w.C5_3 w.C5_4$In w.C5_4$Inner w.C5_4 w.C5_5$In"
      + " w.C5_5$Inner w.C5_5 w.E5$1 w.E5$2 w.E5 w.G5 w.I5_0 w.I5_1"
      + " w.I5_2").split(" ");
    case 6: return ("w.C6_0$In w.C6_0$Inner w.C6_0 w.C6_1$In w.C6_1$Inner w.C6_1 w.C6_2$In w.C6_2$Inner"
      + " w.C6_2 w.C6_3$In w.C6_3$Inner w.C6_3 w.C6_4$In w.C6_4$Inner w.C6_4 w.C6_5$In"
      + " w.C6_5$Inner w.C6_5 w.E6$1 w.E6$2 w.E6 w.G6 w.I6_0 w.I6_1"
      + " w.I6_2").split(" ");
    case 7: return ("w.C7_0$In w.C7_0$Inner w.C7_0 w.C7_1$In w.C7_1$Inner w.C7_1 w.C7_2$In w.C7_2$Inner"
      + " w.C7_2 w.C7_3$In w.C7_3$Inner w.C7_3 w.C7_4$In w.C7_4$Inner w.C7_4 w.C7_5$In"
      + " w.C7_5$Inner w.C7_5 w.E7$1 w.E7$2 w.E7 w.G7 w.I7_0 w.I7_1"
      + " w.I7_2").split(" ");
    case 8: return ("w.C8_0$In w.C8_0$Inner w.C8_0 w.C8_1$In w.C8_1$Inner w.C8_1 w.C8_2$In w.C8_2$Inner"
      + " w.C8_2 w.C8_3$In w.C8_3$Inner w.C8_3 w.C8_4$In w.C8_4$Inner w.C8_4 w.C8_5$In"
      + " w.C8_5$Inner w.C8_5 w.E8$1 w.E8$2 w.E8 w.G8 w.I8_0 w.I8_1"
      + " w.I8_2").split(" ");
    case 9: return ("w.C9_0$In w.C9_0$Inner w.C9_0 w.C9_1$In w.C9_1$Inner w.C9_1 w.C9_2$In w.C9_2$Inner"
      + " w.C9_2 w.C9_3$In w.C9_3$Inner w.C9_3 w.C9_4$In w.C9_4$Inner w.C9_4 w.C9_5$In"
      + " w.C9_5$Inner w.C9_5 w.E9$1 w.E9$2 w.E9 w.G9 w.I9_0 w.I9_1"
      + " w.I9_2").split(" ");
    case 10: return ("w.C10_0$In w.C10_0$Inner w.C10_0 w.C10_1$In w.C10_1$Inner w.C10_1 w.C10_2$In w.C10_2$Inner"
      + " w.C10_2 w.C10_3$In w.C10_3$Inner w.C10_3 w.C10_4$In w.C10_4$Inner w.C10_4 w.C10_5$In"
      + " w.C10_5$Inner w.C10_5 w.E10$1 w.E10$2 w.E10 w.G10 w.I10_0 w.I10_1"
      + " w.I10_2").split(" ");
    case 11: return ("w.C11_0$In w.C11_0$Inner w.C11_0 w.C11_1$In w.C11_1$Inner w.C11_1 w.C11_2$In w.C11_2$Inner"
      + " w.C11_2 w.C11_3$In w.C11_3$Inner w.C11_3 w.C11_4$In w.C11_4$Inner w.C11_4 w.C11_5$In"
      + " w.C11_5$Inner w.C11_5 w.E11$1 w.E11$2 w.E11 w.G11 w.I11_0 w.I11_1"
      + " w.I11_2").split(" ");
    case 12: return ("w.C12_0$In w.C12_0$Inner w.C12_0 w.C12_1$In w.C12_1$Inner w.C12_1 w.C12_2$In w.C12_2$Inner"
      + " w.C12_2 w.C12_3$In w.C12_3$Inner w.C12_3 w.C12_4$In w.C12_4$Inner w.C12_4 w.C12_5$In"
      + " w.C12_5$Inner w.C12_5 w.E12$1 w.E12$2 w.E12 w.G12 w.I12_0 w.I12_1"
      + " w.I12_2").split(" ");
    case 13: return ("w.C13_0$In w.C13_0$Inner w.C13_0 w.C13_1$In w.C13_1$Inner w.C13_1 w.C13_2$In w.C13_2$Inner"
      + " w.C13_2 w.C13_3$In w.C13_3$Inner w.C13_3 w.C13_4$In w.C13_4$Inner w.C13_4 w.C13_5$In"
      + " w.C13_5$Inner w.C13_5 w.E13$1 w.E13$2 w.E13 w.G13 w.I13_0 w.I13_1"
      + " w.I13_2").split(" ");
    case 14: return ("w.C14_0$In w.C14_0$Inner w.C14_0 w.C14_1$In w.C14_1$Inner w.C14_1 w.C14_2$In w.C14_2$Inner"
      + " w.C14_2 w.C14_3$In w.C14_3$Inner w.C14_3 w.C14_4$In w.C14_4$Inner w.C14_4 w.C14_5$In"
      + " w.C14_5$Inner w.C14_5 w.E14$1 w.E14$2 w.E14 w.G14 w.I14_0 w.I14_1"
      + " w.I14_2").split(" ");
    case 15: return ("w.C15_0$In w.C15_0$Inner w.C15_0 w.C15_1$In w.C15_1$Inner w.C15_1 w.C15_2$In w.C15_2$Inner"
      + " w.C15_2 w.C15_3$In w.C15_3$Inner w.C15_3 w.C15_4$In w.C15_4$Inner w.C15_4 w.C15_5$In"
      + " w.C15_5$Inner w.C15_5 w.E15$1 w.E15$2 w.E15 w.G15 w.I15_0 w.I15_1"
      + " w.I15_2").split(" ");
    case 16: return ("w.C16_0$In w.C16_0$Inner w.C16_0 w.C16_1$In w.C16_1$Inner w.C16_1 w.C16_2$In w.C16_2$Inner"
      + " w.C16_2 w.C16_3$In w.C16_3$Inner w.C16_3 w.C16_4$In w.C16_4$Inner w.C16_4 w.C16_5$In"
      + " w.C16_5$Inner w.C16_5 w.E16$1 w.E16$2 w.E16 w.G16 w.I16_0 w.I16_1"
      + " w.I16_2").split(" ");
    case 17: return ("w.C17_0$In w.C17_0$Inner w.C17_0 w.C17_1$In w.C17_1$Inner w.C17_1 w.C17_2$In w.C17_2$Inner"
      + " w.C17_2 w.C17_3$In w.C17_3$Inner w.C17_3 w.C17_4$In w.C17_4$Inner w.C17_4 w.C17_5$In"
      + " w.C17_5$Inner w.C17_5 w.E17$1 w.E17$2 w.E17 w.G17 w.I17_0 w.I17_1"
      + " w.I17_2").split(" ");
    case 18: return ("w.C18_0$In w.C18_0$Inner w.C18_0 w.C18_1$In w.C18_1$Inner w.C18_1 w.C18_2$In w.C18_2$Inner"
      + " w.C18_2 w.C18_3$In w.C18_3$Inner w.C18_3 w.C18_4$In w.C18_4$Inner w.C18_4 w.C18_5$In"
      + " w.C18_5$Inner w.C18_5 w.E18$1 w.E18$2 w.E18 w.G18 w.I18_0 w.I18_1"
      + " w.I18_2").split(" ");
    case 19: return ("w.C19_0$In w.C19_0$Inner w.C19_0 w.C19_1$In w.C19_1$Inner w.C19_1 w.C19_2$In w.C19_2$Inner"
      + " w.C19_2 w.C19_3$In w.C19_3$Inner w.C19_3 w.C19_4$In w.C19_4$Inner w.C19_4 w.C19_5$In"
      + " w.C19_5$Inner w.C19_5 w.E19$1 w.E19$2 w.E19 w.G19 w.I19_0 w.I19_1"
      + " w.I19_2").split(" ");
    case 20: return ("w.C20_0$In w.C20_0$Inner w.C20_0 w.C20_1$In w.C20_1$Inner w.C20_1 w.C20_2$In w.C20_2$Inner"
      + " w.C20_2 w.C20_3$In w.C20_3$Inner w.C20_3 w.C20_4$In w.C20_4$Inner w.C20_4 w.C20_5$In"
      + " w.C20_5$Inner w.C20_5 w.E20$1 w.E20$2 w.E20 w.G20 w.I20_0 w.I20_1"
      + " w.I20_2").split(" ");
    case 21: return ("w.C21_0$In w.C21_0$Inner w.C21_0 w.C21_1$In w.C21_1$Inner w.C21_1 w.C21_2$In w.C21_2$Inner"
      + " w.C21_2 w.C21_3$In w.C21_3$Inner w.C21_3 w.C21_4$In w.C21_4$Inner w.C21_4 w.C21_5$In"
      + " w.C21_5$Inner w.C21_5 w.E21$1 w.E21$2 w.E21 w.G21 w.I21_0 w.I21_1"
      + " w.I21_2").split(" ");
    case 22: return ("w.C22_0$In w.C22_0$Inner w.C22_0 w.C22_1$In w.C22_1$Inner w.C22_1 w.C22_2$In w.C22_2$Inner"
      + " w.C22_2 w.C22_3$In w.C22_3$Inner w.C22_3 w.C22_4$In w.C22_4$Inner w.C22_4 w.C22_5$In"
      + " w.C22_5$Inner w.C22_5 w.E22$1 w.E22$2 w.E22 w.G22 w.I22_0 w.I22_1"
      + " w.I22_2").split(" ");
    case 23: return ("w.C23_0$In w.C23_0$Inner w.C23_0 w.C23_1$In w.C23_1$Inner w.C23_1 w.C23_2$In w.C23_2$Inner"
      + " w.C23_2 w.C23_3$In w.C23_3$Inner w.C23_3 w.C23_4$In w.C23_4$Inner w.C23_4 w.C23_5$In"
      + " w.C23_5$Inner w.C23_5 w.E23$1 w.E23$2 w.E23 w.G23 w.I23_0 w.I23_1"
      + " w.I23_2").split(" ");
    case 24: return ("w.D24 w.F24_0 w.F24_1 w.F24_2 w.F24_3 w.F24_4 w.G24 w.J24"
      + " w.N24_0 w.N24_1 w.N24_2 w.N24_3 w.N24_4 w.S24_0 w.S24_1 w.S24_2"
      + " w.S24_3 w.S24_4").split(" ");
    case 25: return ("w.D25 w.F25_0 w.F25_1 w.F25_2 w.F25_3 w.F25_4 w.G25 w.J25"
      + " w.N25_0 w.N25_1 w.N25_2 w.N25_3 w.N25_4 w.S25_0 w.S25_1 w.S25_2"
      + " w.S25_3 w.S25_4").split(" ");
    case 26: return ("w.D26 w.F26_0 w.F26_1 w.F26_2 w.F26_3 w.F26_4 w.G26 w.J26"
      + " w.N26_0 w.N26_1 w.N26_2 w.N26_3 w.N26_4 w.S26_0 w.S26_1 w.S26_2"
      + " w.S26_3 w.S26_4").split(" ");
    case 27: return ("w.D27 w.F27_0 w.F27_1 w.F27_2 w.F27_3 w.F27_4 w.G27 w.J27"
      + " w.N27_0 w.N27_1 w.N27_2 w.N27_3 w.N27_4 w.S27_0 w.S27_1 w.S27_2"
      + " w.S27_3 w.S27_4").split(" ");
    case 28: return ("w.D28 w.F28_0 w.F28_1 w.F28_2 w.F28_3 w.F28_4 w.G28 w.J28"
      + " w.N28_0 w.N28_1 w.N28_2 w.N28_3 w.N28_4 w.S28_0 w.S28_1 w.S28_2"
      + " w.S28_3 w.S28_4").split(" ");
    case 29: return ("w.D29 w.F29_0 w.F29_1 w.F29_2 w.F29_3 w.F29_4 w.G29 w.J29"
      + " w.N29_0 w.N29_1 w.N29_2 w.N29_3 w.N29_4 w.S29_0 w.S29_1 w.S29_2"
      + " w.S29_3 w.S29_4").split(" ");
    case 30: return ("w.D30 w.F30_0 w.F30_1 w.F30_2 w.F30_3 w.F30_4 w.G30 w.J30"
      + " w.N30_0 w.N30_1 w.N30_2 w.N30_3 w.N30_4 w.S30_0 w.S30_1 w.S30_2"
      + " w.S30_3 w.S30_4").split(" ");
    case 31: return ("w.D31 w.F31_0 w.F31_1 w.F31_2 w.F31_3 w.F31_4 w.G31 w.J31"
      + " w.N31_0 w.N31_1 w.N31_2 w.N31_3 w.N31_4 w.S31_0 w.S31_1 w.S31_2"
      + " w.S31_3 w.S31_4").split(" ");
    case 32: return ("w.D32 w.F32_0 w.F32_1 w.F32_2 w.F32_3 w.F32_4 w.G32 w.J32"
      + " w.N32_0 w.N32_1 w.N32_2 w.N32_3 w.N32_4 w.S32_0 w.S32_1 w.S32_2"
      + " w.S32_3 w.S32_4").split(" ");
    case 33: return ("w.D33 w.F33_0 w.F33_1 w.F33_2 w.F33_3 w.F33_4 w.G33 w.J33"
      + " w.N33_0 w.N33_1 w.N33_2 w.N33_3 w.N33_4 w.S33_0 w.S33_1 w.S33_2"
      + " w.S33_3 w.S33_4").split(" ");
    case 34: return ("w.D34 w.F34_0 w.F34_1 w.F34_2 w.F34_3 w.F34_4 w.G34 w.J34"
      + " w.N34_0 w.N34_1 w.N34_2 w.N34_3 w.N34_4 w.S34_0 w.S34_1 w.S34_2"
      + " w.S34_3 w.S34_4").split(" ");
    case 35: return ("w.D35 w.F35_0 w.F35_1 w.F35_2 w.F35_3 w.F35_4 w.G35 w.J35"
      + " w.N35_0 w.N35_1 w.N35_2 w.N35_3 w.N35_4 w.S35_0 w.S35_1 w.S35_2"
      + " w.S35_3 w.S35_4").split(" ");
    case 36: return ("w.D36 w.F36_0 w.F36_1 w.F36_2 w.F36_3 w.F36_4 w.G36 w.J36"
      + " w.N36_0 w.N36_1 w.N36_2 w.N36_3 w.N36_4 w.S36_0 w.S36_1 w.S36_2"
      + " w.S36_3 w.S36_4").split(" ");
    case 37: return ("w.D37 w.F37_0 w.F37_1 w.F37_2 w.F37_3 w.F37_4 w.G37 w.J37"
      + " w.N37_0 w.N37_1 w.N37_2 w.N37_3 w.N37_4 w.S37_0 w.S37_1 w.S37_2"
      + " w.S37_3 w.S37_4").split(" ");
    case 38: return ("w.D38 w.F38_0 w.F38_1 w.F38_2 w.F38_3 w.F38_4 w.G38 w.J38"
      + " w.N38_0 w.N38_1 w.N38_2 w.N38_3 w.N38_4 w.S38_0 w.S38_1 w.S38_2"
      + " w.S38_3 w.S38_4").split(" ");
    case 39: return ("w.D39 w.F39_0 w.F39_1 w.F39_2 w.F39_3 w.F39_4 w.G39 w.J39"
      + " w.N39_0 w.N39_1 w.N39_2 w.N39_3 w.N39_4 w.S39_0 w.S39_1 w.S39_2"
      + " w.S39_3 w.S39_4").split(" ");
    default: throw new IllegalArgumentException();
    }
  }
}
