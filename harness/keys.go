package main

import "github.com/metafates/bento"

// The keys the library lists, as documented: the reference for decoding them.
var keyTable = map[string]bento.Key{
	// Arrow keys
	"\x1b[A":    {Type: bento.KeyUp},
	"\x1b[B":    {Type: bento.KeyDown},
	"\x1b[C":    {Type: bento.KeyRight},
	"\x1b[D":    {Type: bento.KeyLeft},
	"\x1b[1;2A": {Type: bento.KeyShiftUp},
	"\x1b[1;2B": {Type: bento.KeyShiftDown},
	"\x1b[1;2C": {Type: bento.KeyShiftRight},
	"\x1b[1;2D": {Type: bento.KeyShiftLeft},
	"\x1b[OA":   {Type: bento.KeyShiftUp},    // DECCKM
	"\x1b[OB":   {Type: bento.KeyShiftDown},  // DECCKM
	"\x1b[OC":   {Type: bento.KeyShiftRight}, // DECCKM
	"\x1b[OD":   {Type: bento.KeyShiftLeft},  // DECCKM
	"\x1b[a":    {Type: bento.KeyShiftUp},    // urxvt
	"\x1b[b":    {Type: bento.KeyShiftDown},  // urxvt
	"\x1b[c":    {Type: bento.KeyShiftRight}, // urxvt
	"\x1b[d":    {Type: bento.KeyShiftLeft},  // urxvt
	"\x1b[1;3A": {Type: bento.KeyUp, Alt: true},
	"\x1b[1;3B": {Type: bento.KeyDown, Alt: true},
	"\x1b[1;3C": {Type: bento.KeyRight, Alt: true},
	"\x1b[1;3D": {Type: bento.KeyLeft, Alt: true},

	"\x1b[1;4A": {Type: bento.KeyShiftUp, Alt: true},
	"\x1b[1;4B": {Type: bento.KeyShiftDown, Alt: true},
	"\x1b[1;4C": {Type: bento.KeyShiftRight, Alt: true},
	"\x1b[1;4D": {Type: bento.KeyShiftLeft, Alt: true},

	"\x1b[1;5A": {Type: bento.KeyCtrlUp},
	"\x1b[1;5B": {Type: bento.KeyCtrlDown},
	"\x1b[1;5C": {Type: bento.KeyCtrlRight},
	"\x1b[1;5D": {Type: bento.KeyCtrlLeft},
	"\x1b[Oa":   {Type: bento.KeyCtrlUp, Alt: true},    // urxvt
	"\x1b[Ob":   {Type: bento.KeyCtrlDown, Alt: true},  // urxvt
	"\x1b[Oc":   {Type: bento.KeyCtrlRight, Alt: true}, // urxvt
	"\x1b[Od":   {Type: bento.KeyCtrlLeft, Alt: true},  // urxvt
	"\x1b[1;6A": {Type: bento.KeyCtrlShiftUp},
	"\x1b[1;6B": {Type: bento.KeyCtrlShiftDown},
	"\x1b[1;6C": {Type: bento.KeyCtrlShiftRight},
	"\x1b[1;6D": {Type: bento.KeyCtrlShiftLeft},
	"\x1b[1;7A": {Type: bento.KeyCtrlUp, Alt: true},
	"\x1b[1;7B": {Type: bento.KeyCtrlDown, Alt: true},
	"\x1b[1;7C": {Type: bento.KeyCtrlRight, Alt: true},
	"\x1b[1;7D": {Type: bento.KeyCtrlLeft, Alt: true},
	"\x1b[1;8A": {Type: bento.KeyCtrlShiftUp, Alt: true},
	"\x1b[1;8B": {Type: bento.KeyCtrlShiftDown, Alt: true},
	"\x1b[1;8C": {Type: bento.KeyCtrlShiftRight, Alt: true},
	"\x1b[1;8D": {Type: bento.KeyCtrlShiftLeft, Alt: true},

	// Miscellaneous keys
	"\x1b[Z": {Type: bento.KeyShiftTab},

	"\x1b[2~":   {Type: bento.KeyInsert},
	"\x1b[3;2~": {Type: bento.KeyInsert, Alt: true},

	"\x1b[3~":   {Type: bento.KeyDelete},
	"\x1b[3;3~": {Type: bento.KeyDelete, Alt: true},

	"\x1b[5~":   {Type: bento.KeyPgUp},
	"\x1b[5;3~": {Type: bento.KeyPgUp, Alt: true},
	"\x1b[5;5~": {Type: bento.KeyCtrlPgUp},
	"\x1b[5^":   {Type: bento.KeyCtrlPgUp}, // urxvt
	"\x1b[5;7~": {Type: bento.KeyCtrlPgUp, Alt: true},

	"\x1b[6~":   {Type: bento.KeyPgDown},
	"\x1b[6;3~": {Type: bento.KeyPgDown, Alt: true},
	"\x1b[6;5~": {Type: bento.KeyCtrlPgDown},
	"\x1b[6^":   {Type: bento.KeyCtrlPgDown}, // urxvt
	"\x1b[6;7~": {Type: bento.KeyCtrlPgDown, Alt: true},

	"\x1b[1~":   {Type: bento.KeyHome},
	"\x1b[H":    {Type: bento.KeyHome},                     // xterm, lxterm
	"\x1b[1;3H": {Type: bento.KeyHome, Alt: true},          // xterm, lxterm
	"\x1b[1;5H": {Type: bento.KeyCtrlHome},                 // xterm, lxterm
	"\x1b[1;7H": {Type: bento.KeyCtrlHome, Alt: true},      // xterm, lxterm
	"\x1b[1;2H": {Type: bento.KeyShiftHome},                // xterm, lxterm
	"\x1b[1;4H": {Type: bento.KeyShiftHome, Alt: true},     // xterm, lxterm
	"\x1b[1;6H": {Type: bento.KeyCtrlShiftHome},            // xterm, lxterm
	"\x1b[1;8H": {Type: bento.KeyCtrlShiftHome, Alt: true}, // xterm, lxterm

	"\x1b[4~":   {Type: bento.KeyEnd},
	"\x1b[F":    {Type: bento.KeyEnd},                     // xterm, lxterm
	"\x1b[1;3F": {Type: bento.KeyEnd, Alt: true},          // xterm, lxterm
	"\x1b[1;5F": {Type: bento.KeyCtrlEnd},                 // xterm, lxterm
	"\x1b[1;7F": {Type: bento.KeyCtrlEnd, Alt: true},      // xterm, lxterm
	"\x1b[1;2F": {Type: bento.KeyShiftEnd},                // xterm, lxterm
	"\x1b[1;4F": {Type: bento.KeyShiftEnd, Alt: true},     // xterm, lxterm
	"\x1b[1;6F": {Type: bento.KeyCtrlShiftEnd},            // xterm, lxterm
	"\x1b[1;8F": {Type: bento.KeyCtrlShiftEnd, Alt: true}, // xterm, lxterm

	"\x1b[7~": {Type: bento.KeyHome},          // urxvt
	"\x1b[7^": {Type: bento.KeyCtrlHome},      // urxvt
	"\x1b[7$": {Type: bento.KeyShiftHome},     // urxvt
	"\x1b[7@": {Type: bento.KeyCtrlShiftHome}, // urxvt

	"\x1b[8~": {Type: bento.KeyEnd},          // urxvt
	"\x1b[8^": {Type: bento.KeyCtrlEnd},      // urxvt
	"\x1b[8$": {Type: bento.KeyShiftEnd},     // urxvt
	"\x1b[8@": {Type: bento.KeyCtrlShiftEnd}, // urxvt

	// Function keys, Linux console
	"\x1b[[A": {Type: bento.KeyF1}, // linux console
	"\x1b[[B": {Type: bento.KeyF2}, // linux console
	"\x1b[[C": {Type: bento.KeyF3}, // linux console
	"\x1b[[D": {Type: bento.KeyF4}, // linux console
	"\x1b[[E": {Type: bento.KeyF5}, // linux console

	// Function keys, X11
	"\x1bOP": {Type: bento.KeyF1}, // vt100, xterm
	"\x1bOQ": {Type: bento.KeyF2}, // vt100, xterm
	"\x1bOR": {Type: bento.KeyF3}, // vt100, xterm
	"\x1bOS": {Type: bento.KeyF4}, // vt100, xterm

	"\x1b[1;3P": {Type: bento.KeyF1, Alt: true}, // vt100, xterm
	"\x1b[1;3Q": {Type: bento.KeyF2, Alt: true}, // vt100, xterm
	"\x1b[1;3R": {Type: bento.KeyF3, Alt: true}, // vt100, xterm
	"\x1b[1;3S": {Type: bento.KeyF4, Alt: true}, // vt100, xterm

	"\x1b[11~": {Type: bento.KeyF1}, // urxvt
	"\x1b[12~": {Type: bento.KeyF2}, // urxvt
	"\x1b[13~": {Type: bento.KeyF3}, // urxvt
	"\x1b[14~": {Type: bento.KeyF4}, // urxvt

	"\x1b[15~": {Type: bento.KeyF5}, // vt100, xterm, also urxvt

	"\x1b[15;3~": {Type: bento.KeyF5, Alt: true}, // vt100, xterm, also urxvt

	"\x1b[17~": {Type: bento.KeyF6},  // vt100, xterm, also urxvt
	"\x1b[18~": {Type: bento.KeyF7},  // vt100, xterm, also urxvt
	"\x1b[19~": {Type: bento.KeyF8},  // vt100, xterm, also urxvt
	"\x1b[20~": {Type: bento.KeyF9},  // vt100, xterm, also urxvt
	"\x1b[21~": {Type: bento.KeyF10}, // vt100, xterm, also urxvt

	"\x1b[17;3~": {Type: bento.KeyF6, Alt: true},  // vt100, xterm
	"\x1b[18;3~": {Type: bento.KeyF7, Alt: true},  // vt100, xterm
	"\x1b[19;3~": {Type: bento.KeyF8, Alt: true},  // vt100, xterm
	"\x1b[20;3~": {Type: bento.KeyF9, Alt: true},  // vt100, xterm
	"\x1b[21;3~": {Type: bento.KeyF10, Alt: true}, // vt100, xterm

	"\x1b[23~": {Type: bento.KeyF11}, // vt100, xterm, also urxvt
	"\x1b[24~": {Type: bento.KeyF12}, // vt100, xterm, also urxvt

	"\x1b[23;3~": {Type: bento.KeyF11, Alt: true}, // vt100, xterm
	"\x1b[24;3~": {Type: bento.KeyF12, Alt: true}, // vt100, xterm

	"\x1b[1;2P": {Type: bento.KeyF13},
	"\x1b[1;2Q": {Type: bento.KeyF14},

	"\x1b[25~": {Type: bento.KeyF13}, // vt100, xterm, also urxvt
	"\x1b[26~": {Type: bento.KeyF14}, // vt100, xterm, also urxvt

	"\x1b[25;3~": {Type: bento.KeyF13, Alt: true}, // vt100, xterm
	"\x1b[26;3~": {Type: bento.KeyF14, Alt: true}, // vt100, xterm

	"\x1b[1;2R": {Type: bento.KeyF15},
	"\x1b[1;2S": {Type: bento.KeyF16},

	"\x1b[28~": {Type: bento.KeyF15}, // vt100, xterm, also urxvt
	"\x1b[29~": {Type: bento.KeyF16}, // vt100, xterm, also urxvt

	"\x1b[28;3~": {Type: bento.KeyF15, Alt: true}, // vt100, xterm
	"\x1b[29;3~": {Type: bento.KeyF16, Alt: true}, // vt100, xterm

	"\x1b[15;2~": {Type: bento.KeyF17},
	"\x1b[17;2~": {Type: bento.KeyF18},
	"\x1b[18;2~": {Type: bento.KeyF19},
	"\x1b[19;2~": {Type: bento.KeyF20},

	"\x1b[31~": {Type: bento.KeyF17},
	"\x1b[32~": {Type: bento.KeyF18},
	"\x1b[33~": {Type: bento.KeyF19},
	"\x1b[34~": {Type: bento.KeyF20},

	// Powershell sequences.
	"\x1bOA": {Type: bento.KeyUp, Alt: false},
	"\x1bOB": {Type: bento.KeyDown, Alt: false},
	"\x1bOC": {Type: bento.KeyRight, Alt: false},
	"\x1bOD": {Type: bento.KeyLeft, Alt: false},
}

// The names of the keys.
var keyNameTable = map[bento.KeyType]string{
	0:                       "ctrl+@",
	1:                       "ctrl+a",
	2:                       "ctrl+b",
	3:                       "ctrl+c",
	4:                       "ctrl+d",
	5:                       "ctrl+e",
	6:                       "ctrl+f",
	7:                       "ctrl+g",
	8:                       "ctrl+h",
	9:                       "tab",
	10:                      "ctrl+j",
	11:                      "ctrl+k",
	12:                      "ctrl+l",
	13:                      "enter",
	14:                      "ctrl+n",
	15:                      "ctrl+o",
	16:                      "ctrl+p",
	17:                      "ctrl+q",
	18:                      "ctrl+r",
	19:                      "ctrl+s",
	20:                      "ctrl+t",
	21:                      "ctrl+u",
	22:                      "ctrl+v",
	23:                      "ctrl+w",
	24:                      "ctrl+x",
	25:                      "ctrl+y",
	26:                      "ctrl+z",
	27:                      "esc",
	28:                      "ctrl+\\",
	29:                      "ctrl+]",
	30:                      "ctrl+^",
	31:                      "ctrl+_",
	127:                     "backspace",
	bento.KeyRunes:          "runes",
	bento.KeyUp:             "up",
	bento.KeyDown:           "down",
	bento.KeyRight:          "right",
	bento.KeySpace:          " ", // for backwards compatibility
	bento.KeyLeft:           "left",
	bento.KeyShiftTab:       "shift+tab",
	bento.KeyHome:           "home",
	bento.KeyEnd:            "end",
	bento.KeyCtrlHome:       "ctrl+home",
	bento.KeyCtrlEnd:        "ctrl+end",
	bento.KeyShiftHome:      "shift+home",
	bento.KeyShiftEnd:       "shift+end",
	bento.KeyCtrlShiftHome:  "ctrl+shift+home",
	bento.KeyCtrlShiftEnd:   "ctrl+shift+end",
	bento.KeyPgUp:           "pgup",
	bento.KeyPgDown:         "pgdown",
	bento.KeyCtrlPgUp:       "ctrl+pgup",
	bento.KeyCtrlPgDown:     "ctrl+pgdown",
	bento.KeyDelete:         "delete",
	bento.KeyInsert:         "insert",
	bento.KeyCtrlUp:         "ctrl+up",
	bento.KeyCtrlDown:       "ctrl+down",
	bento.KeyCtrlRight:      "ctrl+right",
	bento.KeyCtrlLeft:       "ctrl+left",
	bento.KeyShiftUp:        "shift+up",
	bento.KeyShiftDown:      "shift+down",
	bento.KeyShiftRight:     "shift+right",
	bento.KeyShiftLeft:      "shift+left",
	bento.KeyCtrlShiftUp:    "ctrl+shift+up",
	bento.KeyCtrlShiftDown:  "ctrl+shift+down",
	bento.KeyCtrlShiftLeft:  "ctrl+shift+left",
	bento.KeyCtrlShiftRight: "ctrl+shift+right",
	bento.KeyF1:             "f1",
	bento.KeyF2:             "f2",
	bento.KeyF3:             "f3",
	bento.KeyF4:             "f4",
	bento.KeyF5:             "f5",
	bento.KeyF6:             "f6",
	bento.KeyF7:             "f7",
	bento.KeyF8:             "f8",
	bento.KeyF9:             "f9",
	bento.KeyF10:            "f10",
	bento.KeyF11:            "f11",
	bento.KeyF12:            "f12",
	bento.KeyF13:            "f13",
	bento.KeyF14:            "f14",
	bento.KeyF15:            "f15",
	bento.KeyF16:            "f16",
	bento.KeyF17:            "f17",
	bento.KeyF18:            "f18",
	bento.KeyF19:            "f19",
	bento.KeyF20:            "f20",
}
