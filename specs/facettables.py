"""Stokes parameters of correlations and back, as the policy names say"""
STOKES = {"I_FROM_XXYY": (0, 1, .5, .5), "I_FROM_XXXYYXYY": (0, 3, .5, .5), "I_FROM_RRLL": (0, 1, .5, .5), "I_FROM_RRRLLRLL": (0, 3, .5, .5),
          "Q_FROM_XXYY": (0, 1, .5, -.5), "Q_FROM_XXXYYXYY": (0, 3, .5, -.5), "Q_FROM_RRRLLRLL": (1, 2, .5, .5),
          "U_FROM_XYYX": (0, 1, .5, .5), "U_FROM_XXXYYXYY": (1, 2, .5, .5), "U_FROM_RLLR": (0, 1, -.5j, .5j), "U_FROM_RRRLLRLL": (1, 2, -.5j, .5j),
          "V_FROM_RRLL": (0, 1, .5, -.5), "V_FROM_RRRLLRLL": (0, 3, .5, -.5), "V_FROM_XYYX": (0, 1, -.5j, .5j), "V_FROM_XXXYYXYY": (1, 2, -.5j, .5j)}
# correlations: (number, then index and factor of the two that carry the parameter)
CORRS = {"XXYY_FROM_I": (2, 0, 1, 1, 1), "XXXYYXYY_FROM_I": (4, 0, 1, 3, 1), "RRLL_FROM_I": (2, 0, 1, 1, 1), "RRRLLRLL_FROM_I": (4, 0, 1, 3, 1),
         "XXYY_FROM_Q": (2, 0, 1, 1, -1), "XXXYYXYY_FROM_Q": (4, 0, 1, 3, -1), "RLLR_FROM_Q": (2, 0, 1, 1, 1), "RRRLLRLL_FROM_Q": (4, 1, 1, 2, 1),
         "XYYX_FROM_U": (2, 0, 1, 1, 1), "XXXYYXYY_FROM_U": (4, 1, 1, 2, 1), "RLLR_FROM_U": (2, 0, 1j, 1, -1j), "RRRLLRLL_FROM_U": (4, 1, 1j, 2, -1j),
         "XYYX_FROM_V": (2, 0, 1j, 1, -1j), "XXXYYXYY_FROM_V": (4, 1, 1j, 2, -1j), "RRLL_FROM_V": (2, 0, 1, 1, -1), "RRRLLRLL_FROM_V": (4, 0, 1, 3, -1)}
