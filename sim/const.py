"""Command codes, written down independently of the library (they are its public file/API contract)."""
NO_COMMAND = -1
STITCH, JUMP, TRIM, STOP, END, COLOR_CHANGE = 0, 1, 2, 3, 4, 5
SEQUIN_MODE, SEQUIN_EJECT, NEEDLE_SET, SLOW, FAST = 6, 7, 9, 0xB, 0xC
SET_CHANGE_SEQUENCE = 0x10
SEW_TO, NEEDLE_AT = 0xB0, 0xB1
STITCH_BREAK, SEQUENCE_BREAK, COLOR_BREAK = 0xE0, 0xE1, 0xE2
TIE_ON, TIE_OFF, FRAME_EJECT = 0xE4, 0xE5, 0xE9
MATRIX_TRANSLATE, MATRIX_SCALE_ORIGIN, MATRIX_ROTATE_ORIGIN, MATRIX_RESET, MATRIX_SCALE, MATRIX_ROTATE = 0xC0, 0xC1, 0xC2, 0xC3, 0xC4, 0xC5
OPTION_MAX_STITCH_LENGTH, OPTION_MAX_JUMP_LENGTH, OPTION_EXPLICIT_TRIM, OPTION_IMPLICIT_TRIM = 0xD5, 0xD6, 0xD7, 0xD8
CONTINGENCY_TIE_ON_THREE_SMALL, CONTINGENCY_TIE_OFF_THREE_SMALL, CONTINGENCY_TIE_ON_NONE, CONTINGENCY_TIE_OFF_NONE = 0xD1, 0xD2, 0xD3, 0xD4
CONTINGENCY_LONG_STITCH_NONE, CONTINGENCY_LONG_STITCH_JUMP_NEEDLE, CONTINGENCY_LONG_STITCH_SEW_TO = 0xF0, 0xF1, 0xF2
CONTINGENCY_SEQUIN_UTILIZE, CONTINGENCY_SEQUIN_JUMP, CONTINGENCY_SEQUIN_STITCH, CONTINGENCY_SEQUIN_REMOVE = 0xF5, 0xF6, 0xF7, 0xF8
ALL_COMMANDS = [NO_COMMAND, STITCH, JUMP, TRIM, STOP, END, COLOR_CHANGE, SEQUIN_MODE, SEQUIN_EJECT, NEEDLE_SET, SLOW, FAST,
                SET_CHANGE_SEQUENCE, SEW_TO, NEEDLE_AT, STITCH_BREAK, SEQUENCE_BREAK, COLOR_BREAK, TIE_ON, TIE_OFF, FRAME_EJECT,
                MATRIX_TRANSLATE, MATRIX_SCALE_ORIGIN, MATRIX_ROTATE_ORIGIN, MATRIX_RESET, MATRIX_SCALE, MATRIX_ROTATE,
                OPTION_MAX_STITCH_LENGTH, OPTION_MAX_JUMP_LENGTH, OPTION_EXPLICIT_TRIM, OPTION_IMPLICIT_TRIM,
                CONTINGENCY_TIE_ON_THREE_SMALL, CONTINGENCY_TIE_OFF_THREE_SMALL, CONTINGENCY_TIE_ON_NONE, CONTINGENCY_TIE_OFF_NONE,
                CONTINGENCY_LONG_STITCH_NONE, CONTINGENCY_LONG_STITCH_JUMP_NEEDLE, CONTINGENCY_LONG_STITCH_SEW_TO,
                CONTINGENCY_SEQUIN_UTILIZE, CONTINGENCY_SEQUIN_JUMP, CONTINGENCY_SEQUIN_STITCH, CONTINGENCY_SEQUIN_REMOVE]
