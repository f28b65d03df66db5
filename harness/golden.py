"""
Reference data, written down once and never read from the tree under test.
"""

# physical keyboard: rows of (left, right)
KEYBOARD = [[[{'kind': 'letter', 'name': 'Bl1', 'scancode': {'keyman': 'K_BKSLASH', 'macos': 50, 'windows': [41], 'xorg': 49}, 'width': 1},
   {'kind': 'letter', 'name': 'Bl2', 'scancode': {'keyman': 'K_1', 'macos': 18, 'windows': [2], 'xorg': 10}, 'width': 1},
   {'kind': 'letter', 'name': 'Bl3', 'scancode': {'keyman': 'K_2', 'macos': 19, 'windows': [3], 'xorg': 11}, 'width': 1},
   {'kind': 'letter', 'name': 'Bl4', 'scancode': {'keyman': 'K_3', 'macos': 20, 'windows': [4], 'xorg': 12}, 'width': 1},
   {'kind': 'letter', 'name': 'Bl5', 'scancode': {'keyman': 'K_4', 'macos': 21, 'windows': [5], 'xorg': 13}, 'width': 1},
   {'kind': 'letter', 'name': 'Bl6', 'scancode': {'keyman': 'K_5', 'macos': 23, 'windows': [6], 'xorg': 14}, 'width': 1},
   {'kind': 'letter', 'name': 'Bl7', 'scancode': {'keyman': 'K_6', 'macos': 22, 'windows': [7], 'xorg': 15}, 'width': 1}],
  [{'kind': 'letter', 'name': 'Br6', 'scancode': {'keyman': 'K_7', 'macos': 26, 'windows': [8], 'xorg': 16}, 'width': 1},
   {'kind': 'letter', 'name': 'Br5', 'scancode': {'keyman': 'K_8', 'macos': 28, 'windows': [9], 'xorg': 17}, 'width': 1},
   {'kind': 'letter', 'name': 'Br4', 'scancode': {'keyman': 'K_9', 'macos': 25, 'windows': [10], 'xorg': 18}, 'width': 1},
   {'kind': 'letter', 'name': 'Br3', 'scancode': {'keyman': 'K_0', 'macos': 29, 'windows': [11], 'xorg': 19}, 'width': 1},
   {'kind': 'letter', 'name': 'Br2', 'scancode': {'keyman': 'K_LBRKT', 'macos': 27, 'windows': [12], 'xorg': 20}, 'width': 1},
   {'kind': 'letter', 'name': 'Br1', 'scancode': {'keyman': 'K_RBRKT', 'macos': 24, 'windows': [13], 'xorg': 21}, 'width': 1},
   {'name': 'Br_bs', 'scancode': {'keyman': 'K_BKSP', 'macos': 51, 'windows': [14], 'xorg': 22}, 'width': 1.75}]],
 [[{'name': 'Cl_tab', 'scancode': {'keyman': 'K_TAB', 'macos': 48, 'windows': [15], 'xorg': 23}, 'width': 1.75},
   {'kind': 'letter', 'name': 'Cl1', 'scancode': {'keyman': 'K_Q', 'macos': 12, 'windows': [16], 'xorg': 24}, 'width': 1},
   {'kind': 'letter', 'name': 'Cl2', 'scancode': {'keyman': 'K_W', 'macos': 13, 'windows': [17], 'xorg': 25}, 'width': 1},
   {'kind': 'letter', 'name': 'Cl3', 'scancode': {'keyman': 'K_E', 'macos': 14, 'windows': [18], 'xorg': 26}, 'width': 1},
   {'kind': 'letter', 'name': 'Cl4', 'scancode': {'keyman': 'K_R', 'macos': 15, 'windows': [19], 'xorg': 27}, 'width': 1},
   {'kind': 'letter', 'name': 'Cl5', 'scancode': {'keyman': 'K_T', 'macos': 17, 'windows': [20], 'xorg': 28}, 'width': 1}],
  [{'kind': 'letter', 'name': 'Cr7', 'scancode': {'keyman': 'K_Z', 'macos': 16, 'windows': [21], 'xorg': 29}, 'width': 1},
   {'kind': 'letter', 'name': 'Cr6', 'scancode': {'keyman': 'K_U', 'macos': 32, 'windows': [22], 'xorg': 30}, 'width': 1},
   {'kind': 'letter', 'name': 'Cr5', 'scancode': {'keyman': 'K_I', 'macos': 34, 'windows': [23], 'xorg': 31}, 'width': 1},
   {'kind': 'letter', 'name': 'Cr4', 'scancode': {'keyman': 'K_O', 'macos': 31, 'windows': [24], 'xorg': 32}, 'width': 1},
   {'kind': 'letter', 'name': 'Cr3', 'scancode': {'keyman': 'K_P', 'macos': 35, 'windows': [25], 'xorg': 33}, 'width': 1},
   {'kind': 'letter', 'name': 'Cr2', 'scancode': {'keyman': 'K_COLON', 'macos': 33, 'windows': [26], 'xorg': 34}, 'width': 1},
   {'kind': 'letter', 'name': 'Cr1', 'scancode': {'keyman': 'K_EQUAL', 'macos': 30, 'windows': [27], 'xorg': 35}, 'width': 1},
   {'kind': 'multi',
    'name': 'CD_ret',
    'scancode': {'keyman': 'K_ENTER', 'macos': 36, 'windows': [28], 'xorg': 36},
    'span': 2,
    'width': 1}]],
 [[{'name': 'Dl_caps', 'scancode': {'keyman': 'CAPS', 'macos': 57, 'windows': [58], 'xorg': 66}, 'width': 2},
   {'kind': 'letter', 'name': 'Dl1', 'scancode': {'keyman': 'K_A', 'macos': 0, 'windows': [30], 'xorg': 38}, 'width': 1},
   {'kind': 'letter', 'name': 'Dl2', 'scancode': {'keyman': 'K_S', 'macos': 1, 'windows': [31], 'xorg': 39}, 'width': 1},
   {'kind': 'letter', 'name': 'Dl3', 'scancode': {'keyman': 'K_D', 'macos': 2, 'windows': [32], 'xorg': 40}, 'width': 1},
   {'isMarked': True, 'kind': 'letter', 'name': 'Dl4', 'scancode': {'keyman': 'K_F', 'macos': 3, 'windows': [33], 'xorg': 41}, 'width': 1},
   {'kind': 'letter', 'name': 'Dl5', 'scancode': {'keyman': 'K_G', 'macos': 5, 'windows': [34], 'xorg': 42}, 'width': 1}],
  [{'kind': 'letter', 'name': 'Dr7', 'scancode': {'keyman': 'K_H', 'macos': 4, 'windows': [35], 'xorg': 43}, 'width': 1},
   {'isMarked': True, 'kind': 'letter', 'name': 'Dr6', 'scancode': {'keyman': 'K_J', 'macos': 38, 'windows': [36], 'xorg': 44}, 'width': 1},
   {'kind': 'letter', 'name': 'Dr5', 'scancode': {'keyman': 'K_K', 'macos': 40, 'windows': [37], 'xorg': 45}, 'width': 1},
   {'kind': 'letter', 'name': 'Dr4', 'scancode': {'keyman': 'K_L', 'macos': 37, 'windows': [38], 'xorg': 46}, 'width': 1},
   {'kind': 'letter', 'name': 'Dr3', 'scancode': {'keyman': 'K_BKQUOTE', 'macos': 41, 'windows': [39], 'xorg': 47}, 'width': 1},
   {'kind': 'letter', 'name': 'Dr2', 'scancode': {'keyman': 'K_QUOTE', 'macos': 39, 'windows': [40], 'xorg': 48}, 'width': 1},
   {'kind': 'letter', 'name': 'Dr1', 'scancode': {'keyman': 'K_SLASH', 'windows': [43], 'xorg': 51}, 'width': 1}]],
 [[{'name': 'El_shift', 'scancode': {'keyman': 'SHIFT', 'macos': 56, 'windows': [42], 'xorg': 50}, 'width': 1.5},
   {'kind': 'letter', 'name': 'El1', 'scancode': {'keyman': 'K_oE2', 'windows': [86], 'xorg': 94}, 'width': 1},
   {'kind': 'letter', 'name': 'El2', 'scancode': {'keyman': 'K_Y', 'macos': 6, 'windows': [44], 'xorg': 52}, 'width': 1},
   {'kind': 'letter', 'name': 'El3', 'scancode': {'keyman': 'K_X', 'macos': 7, 'windows': [45], 'xorg': 53}, 'width': 1},
   {'kind': 'letter', 'name': 'El4', 'scancode': {'keyman': 'K_C', 'macos': 8, 'windows': [46], 'xorg': 54}, 'width': 1},
   {'kind': 'letter', 'name': 'El5', 'scancode': {'keyman': 'K_V', 'macos': 9, 'windows': [47], 'xorg': 55}, 'width': 1},
   {'kind': 'letter', 'name': 'El6', 'scancode': {'keyman': 'K_B', 'macos': 11, 'windows': [48], 'xorg': 56}, 'width': 1}],
  [{'kind': 'letter', 'name': 'Er5', 'scancode': {'keyman': 'K_N', 'macos': 45, 'windows': [49], 'xorg': 57}, 'width': 1},
   {'kind': 'letter', 'name': 'Er4', 'scancode': {'keyman': 'K_M', 'macos': 46, 'windows': [50], 'xorg': 58}, 'width': 1},
   {'kind': 'letter', 'name': 'Er3', 'scancode': {'keyman': 'K_COMMA', 'macos': 43, 'windows': [51], 'xorg': 59}, 'width': 1},
   {'kind': 'letter', 'name': 'Er2', 'scancode': {'keyman': 'K_PERIOD', 'macos': 47, 'windows': [52], 'xorg': 60}, 'width': 1},
   {'kind': 'letter', 'name': 'Er1', 'scancode': {'keyman': 'K_HYPHEN', 'macos': 44, 'windows': [53], 'xorg': 61}, 'width': 1},
   {'name': 'Er_shift', 'scancode': {'keyman': 'SHIFT', 'macos': 60, 'windows': [54], 'xorg': 62}, 'width': 2.35}]],
 [[{'name': 'Fl_ctrl', 'scancode': {'keyman': 'LCTRL', 'macos': 59, 'windows': [29], 'xorg': 37}, 'width': 1.75},
   {'name': 'Fl_win', 'scancode': {'keyman': 'K_?5B', 'macos': 55, 'windows': [224, 91], 'xorg': 133}, 'width': 1.25},
   {'name': 'Fl_alt', 'scancode': {'keyman': 'LALT', 'macos': 58, 'windows': [56], 'xorg': 64}, 'width': 1.25},
   {'name': 'Fl_space', 'scancode': {'keyman': 'K_SPACE', 'macos': 49, 'windows': [57], 'xorg': 65}, 'width': 3}],
  [{'name': 'Fr_space', 'scancode': {'keyman': 'K_SPACE', 'macos': 49, 'windows': [57], 'xorg': 65}, 'width': 3},
   {'name': 'Fr_altgr', 'scancode': {'keyman': 'RALT', 'macos': 61, 'windows': [224, 56], 'xorg': 108}, 'width': 1.25},
   {'name': 'Fr_win', 'scancode': {'keyman': 'K_?5C', 'macos': 54, 'windows': [224, 92], 'xorg': 134}, 'width': 1.25},
   {'name': 'Fr_menu', 'scancode': {'keyman': 'K_?5D', 'windows': [224, 93], 'xorg': 135}, 'width': 1.25},
   {'name': 'Fr_ctrl', 'scancode': {'keyman': 'RCTRL', 'windows': [224, 29], 'xorg': 105}, 'width': 1.25}]]]

# button name -> (hand, finger)
FINGERS = {'Bl1': ['LEFT', 'LITTLE'],
 'Bl2': ['LEFT', 'LITTLE'],
 'Bl3': ['LEFT', 'LITTLE'],
 'Bl4': ['LEFT', 'RING'],
 'Bl5': ['LEFT', 'MIDDLE'],
 'Bl6': ['LEFT', 'INDEX'],
 'Bl7': ['LEFT', 'INDEX'],
 'Br6': ['RIGHT', 'INDEX'],
 'Br5': ['RIGHT', 'INDEX'],
 'Br4': ['RIGHT', 'MIDDLE'],
 'Br3': ['RIGHT', 'RING'],
 'Br2': ['RIGHT', 'LITTLE'],
 'Br1': ['RIGHT', 'LITTLE'],
 'Br_bs': ['RIGHT', 'LITTLE'],
 'Cl_tab': ['LEFT', 'LITTLE'],
 'Cl1': ['LEFT', 'LITTLE'],
 'Cl2': ['LEFT', 'RING'],
 'Cl3': ['LEFT', 'MIDDLE'],
 'Cl4': ['LEFT', 'INDEX'],
 'Cl5': ['LEFT', 'INDEX'],
 'Cr7': ['RIGHT', 'INDEX'],
 'Cr6': ['RIGHT', 'INDEX'],
 'Cr5': ['RIGHT', 'MIDDLE'],
 'Cr4': ['RIGHT', 'RING'],
 'Cr3': ['RIGHT', 'LITTLE'],
 'Cr2': ['RIGHT', 'LITTLE'],
 'Cr1': ['RIGHT', 'LITTLE'],
 'CD_ret': ['RIGHT', 'LITTLE'],
 'Dl_caps': ['LEFT', 'LITTLE'],
 'Dl1': ['LEFT', 'LITTLE'],
 'Dl2': ['LEFT', 'RING'],
 'Dl3': ['LEFT', 'MIDDLE'],
 'Dl4': ['LEFT', 'INDEX'],
 'Dl5': ['LEFT', 'INDEX'],
 'Dr7': ['RIGHT', 'INDEX'],
 'Dr6': ['RIGHT', 'INDEX'],
 'Dr5': ['RIGHT', 'MIDDLE'],
 'Dr4': ['RIGHT', 'RING'],
 'Dr3': ['RIGHT', 'LITTLE'],
 'Dr2': ['RIGHT', 'LITTLE'],
 'Dr1': ['RIGHT', 'LITTLE'],
 'El_shift': ['LEFT', 'LITTLE'],
 'El1': ['LEFT', 'LITTLE'],
 'El2': ['LEFT', 'LITTLE'],
 'El3': ['LEFT', 'RING'],
 'El4': ['LEFT', 'MIDDLE'],
 'El5': ['LEFT', 'INDEX'],
 'El6': ['LEFT', 'INDEX'],
 'Er5': ['RIGHT', 'INDEX'],
 'Er4': ['RIGHT', 'INDEX'],
 'Er3': ['RIGHT', 'MIDDLE'],
 'Er2': ['RIGHT', 'RING'],
 'Er1': ['RIGHT', 'LITTLE'],
 'Er_shift': ['RIGHT', 'LITTLE'],
 'Fl_ctrl': ['LEFT', 'LITTLE'],
 'Fl_fn': ['LEFT', 'LITTLE'],
 'Fl_win': ['LEFT', 'THUMB'],
 'Fl_alt': ['LEFT', 'THUMB'],
 'Fl_space': ['LEFT', 'THUMB'],
 'Fr_space': ['RIGHT', 'THUMB'],
 'Fr_altgr': ['RIGHT', 'THUMB'],
 'Fr_win': ['RIGHT', 'THUMB'],
 'Fr_menu': ['RIGHT', 'THUMB'],
 'Fr_ctrl': ['RIGHT', 'LITTLE']}

# effort model parameters
MODELS = {'mod01': {'kBPS': (0.3555, 0.6423, 0.4268),
           'k123S': (1.0, 0.367, 0.235, 1.0),
           'w0HRF': (0.0, 1.0, 1.3088, 2.5948),
           'pHand': {'LEFT': 0.0, 'RIGHT': 0.0},
           'pRow': (1.5, 0.5, 0.0, 1.0, 1.5),
           'pFinger': {'LEFT': {'THUMB': 0.0, 'INDEX': 0.0, 'MIDDLE': 0.0, 'RING': 0.5, 'LITTLE': 1.0},
                       'RIGHT': {'THUMB': 0.0, 'INDEX': 0.0, 'MIDDLE': 0.0, 'RING': 0.5, 'LITTLE': 1.0}},
           'fHRF': (1.0, 0.3, 0.3),
           'baselineEffort': {'Bl1': 5.0,
                              'Bl2': 5.0,
                              'Bl3': 4.0,
                              'Bl4': 4.0,
                              'Bl5': 4.0,
                              'Bl6': 3.5,
                              'Bl7': 4.5,
                              'Br6': 4.0,
                              'Br5': 4.0,
                              'Br4': 4.0,
                              'Br3': 4.0,
                              'Br2': 4.0,
                              'Br1': 4.5,
                              'Cl1': 2.0,
                              'Cl2': 2.0,
                              'Cl3': 2.0,
                              'Cl4': 2.0,
                              'Cl5': 2.5,
                              'Cr7': 3.0,
                              'Cr6': 2.0,
                              'Cr5': 2.0,
                              'Cr4': 2.0,
                              'Cr3': 2.5,
                              'Cr2': 4.0,
                              'Cr1': 6.0,
                              'Dl_caps': 2.0,
                              'Dl1': 0.0,
                              'Dl2': 0.0,
                              'Dl3': 0.0,
                              'Dl4': 0.0,
                              'Dl5': 2.0,
                              'Dr7': 2.0,
                              'Dr6': 0.0,
                              'Dr5': 0.0,
                              'Dr4': 0.0,
                              'Dr3': 0.0,
                              'Dr2': 2.0,
                              'Dr1': 4.0,
                              'El_shift': 4.0,
                              'El1': 4.0,
                              'El2': 2.0,
                              'El3': 2.0,
                              'El4': 2.0,
                              'El5': 2.0,
                              'El6': 3.5,
                              'Er5': 2.0,
                              'Er4': 2.0,
                              'Er3': 2.0,
                              'Er2': 2.0,
                              'Er1': 2.0,
                              'Er_shift': 4.0,
                              'Fr_altgr': 4.0}},
 'salvo': {'kBPS': (0.3555, 0.6423, 0.4268),
           'k123S': (1.0, 0.367, 0.235, 1.0),
           'w0HRF': (0.0, 1.0, 1.3088, 2.5948),
           'pHand': {'LEFT': 0.0, 'RIGHT': 0.0},
           'pRow': (1.5, 0.5, 0.0, 1.0, 1.5),
           'pFinger': {'LEFT': {'THUMB': 0.0,
                                'INDEX': 0.07305936073059371,
                                'MIDDLE': 0.1400304414003044,
                                'RING': 0.30898021308980217,
                                'LITTLE': 0.426179604261796},
                       'RIGHT': {'THUMB': 0.0,
                                 'INDEX': 0.0,
                                 'MIDDLE': 0.030441400304414,
                                 'RING': 0.22678843226788437,
                                 'LITTLE': 0.3500761035007611}},
           'fHRF': (1.0, 0.3, 0.3),
           'baselineEffort': {'Bl1': 5.0,
                              'Bl2': 5.0,
                              'Bl3': 4.0,
                              'Bl4': 4.0,
                              'Bl5': 4.0,
                              'Bl6': 3.5,
                              'Bl7': 4.5,
                              'Br6': 4.0,
                              'Br5': 4.0,
                              'Br4': 4.0,
                              'Br3': 4.0,
                              'Br2': 4.0,
                              'Br1': 4.5,
                              'Cl1': 2.0,
                              'Cl2': 2.0,
                              'Cl3': 2.0,
                              'Cl4': 2.0,
                              'Cl5': 2.3,
                              'Cr7': 3.0,
                              'Cr6': 1.9,
                              'Cr5': 2.0,
                              'Cr4': 2.0,
                              'Cr3': 2.2,
                              'Cr2': 4.0,
                              'Cr1': 6.0,
                              'Dl_caps': 2.0,
                              'Dl1': 0.0,
                              'Dl2': 0.0,
                              'Dl3': 0.0,
                              'Dl4': 0.0,
                              'Dl5': 1.8,
                              'Dr7': 1.8,
                              'Dr6': 0.0,
                              'Dr5': 0.0,
                              'Dr4': 0.0,
                              'Dr3': 0.0,
                              'Dr2': 2.0,
                              'Dr1': 4.0,
                              'El_shift': 4.0,
                              'El1': 4.0,
                              'El2': 2.0,
                              'El3': 2.0,
                              'El4': 2.0,
                              'El5': 2.0,
                              'El6': 3.5,
                              'Er5': 2.0,
                              'Er4': 2.0,
                              'Er3': 2.0,
                              'Er2': 2.0,
                              'Er1': 2.0,
                              'Er_shift': 4.0,
                              'Fr_altgr': 4.0}}}

# character normalisation
CHARMAP = {'\ufefb': '\u0644\u0627',
    '\u0623': '\u0627\u0654',
    '\u0625': '\u0627\u0655',
    '\u0626': '\u064a\u0654',
    '\u0624': '\u0648\u0654',
    ',': '\u060c',
    '\u0622': '\u0627\u0653',
    '%': '\u066a',
    '0': '\u0660',
    '1': '\u0661',
    '2': '\u0662',
    '3': '\u0663',
    '4': '\u0664',
    '5': '\u0665',
    '6': '\u0666',
    '7': '\u0667',
    '8': '\u0668',
    '9': '\u0669',
    '?': '\u061f',
    ';': '\u061b',
    '\ufef9': '\u0644\u0627\u0655',
    '\ufef7': '\u0644\u0627\u0654',
    '\xa0': ' '}

# Windows: (prefix, scan code) -> virtual key and flags of the packaged driver, as in kbd.h
WINDOWS = {
 (1,): 0x1b, (2,): 0x31, (3,): 0x32, (4,): 0x33, (5,): 0x34, (6,): 0x35, (7,): 0x36, (8,): 0x37,
 (9,): 0x38, (10,): 0x39, (11,): 0x30, (12,): 0xbd, (13,): 0xbb, (14,): 0x8, (15,): 0x9, (16,): 0x51,
 (17,): 0x57, (18,): 0x45, (19,): 0x52, (20,): 0x54, (21,): 0x59, (22,): 0x55, (23,): 0x49, (24,): 0x4f,
 (25,): 0x50, (26,): 0xdb, (27,): 0xdd, (28,): 0xd, (29,): 0xa2, (30,): 0x41, (31,): 0x53, (32,): 0x44,
 (33,): 0x46, (34,): 0x47, (35,): 0x48, (36,): 0x4a, (37,): 0x4b, (38,): 0x4c, (39,): 0xba, (40,): 0xde,
 (41,): 0xc0, (42,): 0xa0, (43,): 0xe2, (44,): 0x5a, (45,): 0x58, (46,): 0x43, (47,): 0x56, (48,): 0x42,
 (49,): 0x4e, (50,): 0x4d, (51,): 0xbc, (52,): 0xbe, (53,): 0xbf, (54,): 0x1a1, (55,): 0x26a, (56,): 0xa4,
 (57,): 0x20, (58,): 0xe2, (59,): 0x70, (60,): 0x71, (61,): 0x72, (62,): 0x73, (63,): 0x74, (64,): 0x75,
 (65,): 0x76, (66,): 0x77, (67,): 0x78, (68,): 0x79, (69,): 0x390, (70,): 0x291, (71,): 0xc24, (72,): 0xc26,
 (73,): 0xc21, (74,): 0x6d, (75,): 0xc25, (76,): 0xc0c, (77,): 0xc27, (78,): 0x6b, (79,): 0xc23, (80,): 0xc28,
 (81,): 0xc22, (82,): 0xc2d, (83,): 0xc2e, (84,): 0x2c, (86,): 0xdf, (87,): 0x7a, (88,): 0x7b, (89,): 0xc,
 (90,): 0xee, (91,): 0xf1, (92,): 0xea, (93,): 0xf9, (94,): 0xf5, (95,): 0xf3, (98,): 0xfb, (99,): 0x2f,
 (100,): 0x7c, (101,): 0x7d, (102,): 0x7e, (103,): 0x7f, (104,): 0x80, (105,): 0x81, (106,): 0x82, (107,): 0x83,
 (108,): 0x84, (109,): 0x85, (110,): 0x86, (111,): 0xed, (113,): 0xe9, (115,): 0xc1, (118,): 0x87, (123,): 0xeb,
 (124,): 0x9, (126,): 0xc2, (127,): 0xec, (224, 16): 0x1b1, (224, 25): 0x1b0, (224, 28): 0x10d, (224, 29): 0x1a3, (224, 32): 0x1ad,
 (224, 33): 0x1b7, (224, 34): 0x1b3, (224, 36): 0x1b2, (224, 46): 0x1ae, (224, 48): 0x1af, (224, 50): 0x1ac, (224, 53): 0x16f, (224, 55): 0x12c,
 (224, 56): 0xdf, (224, 70): 0x103, (224, 71): 0x124, (224, 72): 0x126, (224, 73): 0x121, (224, 75): 0x125, (224, 77): 0x127, (224, 79): 0x123,
 (224, 80): 0x128, (224, 81): 0x122, (224, 82): 0x12d, (224, 83): 0x12e, (224, 91): 0x15b, (224, 92): 0x15c, (224, 93): 0x15d, (224, 95): 0x15f,
 (224, 101): 0x1aa, (224, 102): 0x1ab, (224, 103): 0x1a8, (224, 104): 0x1a9, (224, 105): 0x1a7, (224, 106): 0x1a6, (224, 107): 0x1b6, (224, 108): 0x1b4,
 (224, 109): 0x1b5, (225, 29): 0x13,
 }

# scan code -> name
WINDOWSNAMES = {
 (1,): 'Esc', (14,): 'Backspace', (15,): 'Tab', (28,): 'Enter', (29,): 'Ctrl', (42,): 'Shift',
 (54,): 'Right Shift', (55,): 'Num *', (56,): 'Alt', (57,): 'Space', (58,): 'Caps Lock', (59,): 'F1',
 (60,): 'F2', (61,): 'F3', (62,): 'F4', (63,): 'F5', (64,): 'F6', (65,): 'F7',
 (66,): 'F8', (67,): 'F9', (68,): 'F10', (69,): 'Pause', (70,): 'Scroll Lock', (71,): 'Num 7',
 (72,): 'Num 8', (73,): 'Num 9', (74,): 'Num -', (75,): 'Num 4', (76,): 'Num 5', (77,): 'Num 6',
 (78,): 'Num +', (79,): 'Num 1', (80,): 'Num 2', (81,): 'Num 3', (82,): 'Num 0', (83,): 'Num Del',
 (84,): 'Sys Req', (87,): 'F11', (88,): 'F12', (124,): 'F13', (125,): 'F14', (126,): 'F15',
 (127,): 'F16', (128,): 'F17', (129,): 'F18', (130,): 'F19', (131,): 'F20', (132,): 'F21',
 (133,): 'F22', (134,): 'F23', (135,): 'F24', (224, 28): 'Num Enter', (224, 29): 'Right Ctrl', (224, 53): 'Num /',
 (224, 55): 'Prnt Scrn', (224, 56): 'Right Alt', (224, 69): 'Num Lock', (224, 70): 'Break', (224, 71): 'Home', (224, 72): 'Up',
 (224, 73): 'Page Up', (224, 75): 'Left', (224, 77): 'Right', (224, 79): 'End', (224, 80): 'Down', (224, 81): 'Page Down',
 (224, 82): 'Insert', (224, 83): 'Delete', (224, 84): '<00>', (224, 86): 'Help', (224, 91): 'Left Windows', (224, 92): 'Right Windows',
 (224, 93): 'Application',
 }
