"""Reference instruction tables, from the Motorola MC6809 programming manual and
the published HD6309 instruction set.  Nothing here is taken from the program."""

INH = {"nop": 0x12, "sync": 0x13, "daa": 0x19, "sex": 0x1D, "rts": 0x39, "abx": 0x3A, "rti": 0x3B, "mul": 0x3D,
       "swi": 0x3F, "swi2": 0x103F, "swi3": 0x113F}
for i, m in {0: "neg", 3: "com", 4: "lsr", 6: "ror", 7: "asr", 8: "asl", 9: "rol", 0xA: "dec", 0xC: "inc", 0xD: "tst", 0xF: "clr"}.items():
    INH[m + "a"] = 0x40 + i
    INH[m + "b"] = 0x50 + i
INH["lsla"], INH["lslb"] = 0x48, 0x58

BR = {"bra": 0x20, "brn": 0x21, "bhi": 0x22, "bls": 0x23, "bcc": 0x24, "bhs": 0x24, "bcs": 0x25, "blo": 0x25, "bne": 0x26, "beq": 0x27,
      "bvc": 0x28, "bvs": 0x29, "bpl": 0x2A, "bmi": 0x2B, "bge": 0x2C, "blt": 0x2D, "bgt": 0x2E, "ble": 0x2F}
SHORT = dict(BR, bsr=0x8D)
LONG = {"l" + k: 0x1000 + v for k, v in BR.items()}
LONG["lbra"], LONG["lbsr"] = 0x16, 0x17

IMMONLY = {"orcc": 0x1A, "andcc": 0x1C, "cwai": 0x3C}
PAIR = {"exg": 0x1E, "tfr": 0x1F}
STACK = {"pshs": 0x34, "puls": 0x35, "pshu": 0x36, "pulu": 0x37}
LEA = {"leax": 0x30, "leay": 0x31, "leas": 0x32, "leau": 0x33}

# mnemonic -> (immediate width or 0, immediate, direct, indexed, extended)
MEM = {}
for i, ms in {0: ["neg"], 3: ["com"], 4: ["lsr"], 6: ["ror"], 7: ["asr"], 8: ["asl", "lsl"], 9: ["rol"], 0xA: ["dec"], 0xC: ["inc"],
              0xD: ["tst"], 0xE: ["jmp"], 0xF: ["clr"]}.items():
    for m in ms:
        MEM[m] = (0, None, i, 0x60 + i, 0x70 + i)


def _acc(m, w, base):
    MEM[m] = (w, base if w else None, base + 0x10, base + 0x20, base + 0x30)


for i, m in {0: "sub", 1: "cmp", 2: "sbc", 4: "and", 5: "bit", 6: "ld", 8: "eor", 9: "adc", 0xA: "or", 0xB: "add"}.items():
    _acc(m + "a", 1, 0x80 + i)
    _acc(m + "b", 1, 0xC0 + i)
_acc("sta", 0, 0x87)
_acc("stb", 0, 0xC7)
_acc("subd", 2, 0x83)
_acc("cmpx", 2, 0x8C)
_acc("jsr", 0, 0x8D)
_acc("ldx", 2, 0x8E)
_acc("stx", 0, 0x8F)
_acc("addd", 2, 0xC3)
_acc("ldd", 2, 0xCC)
_acc("std", 0, 0xCD)
_acc("ldu", 2, 0xCE)
_acc("stu", 0, 0xCF)
_acc("cmpd", 2, 0x1083)
_acc("cmpy", 2, 0x108C)
_acc("ldy", 2, 0x108E)
_acc("sty", 0, 0x108F)
_acc("lds", 2, 0x10CE)
_acc("sts", 0, 0x10CF)
_acc("cmpu", 2, 0x1183)
_acc("cmps", 2, 0x118C)
# 6800-style spellings
for a, b in {"ldaa": "lda", "staa": "sta", "oraa": "ora", "ldab": "ldb", "stab": "stb", "orab": "orb", "cpx": "cmpx"}.items():
    MEM[a] = MEM[b]

# ---------------------------------------------------------------- 6309

INH63 = {"sexw": 0x14, "pshsw": 0x1038, "pulsw": 0x1039, "pshuw": 0x103A, "puluw": 0x103B}
for i, m in {0: "neg", 3: "com", 4: "lsr", 6: "ror", 7: "asr", 8: "asl", 9: "rol", 0xA: "dec", 0xC: "inc", 0xD: "tst", 0xF: "clr"}.items():
    INH63[m + "d"] = 0x1040 + i
INH63["lsld"] = 0x1048
for i, m in {3: "com", 4: "lsr", 6: "ror", 9: "rol", 0xA: "dec", 0xC: "inc", 0xD: "tst", 0xF: "clr"}.items():
    INH63[m + "w"] = 0x1050 + i
for i, m in {3: "com", 0xA: "dec", 0xC: "inc", 0xD: "tst", 0xF: "clr"}.items():
    INH63[m + "e"] = 0x1140 + i
    INH63[m + "f"] = 0x1150 + i
IMMONLY63 = {"bitmd": 0x113C, "ldmd": 0x113D}
PAIR63 = {"addr": 0x1030, "adcr": 0x1031, "subr": 0x1032, "sbcr": 0x1033, "andr": 0x1034, "orr": 0x1035, "eorr": 0x1036, "cmpr": 0x1037}
IMMMEM63 = {"oim": 0x01, "aim": 0x02, "eim": 0x05, "tim": 0x0B}     # direct; +60 indexed, +70 extended
BIT63 = {"band": 0x1130, "biand": 0x1131, "bor": 0x1132, "bior": 0x1133, "beor": 0x1134, "bieor": 0x1135, "ldbt": 0x1136, "stbt": 0x1137}
MEM63 = {}


def _acc63(m, w, base, imm=None):
    MEM63[m] = (w, (imm if imm is not None else base) if w else None, base + 0x10, base + 0x20, base + 0x30)


for i, m in {0: "subw", 1: "cmpw", 2: "sbcd", 4: "andd", 5: "bitd", 6: "ldw", 8: "eord", 9: "adcd", 0xA: "ord", 0xB: "addw"}.items():
    _acc63(m, 2, 0x1080 + i)
_acc63("stw", 0, 0x1087)
_acc63("ldq", 4, 0x10CC, 0xCD)
_acc63("stq", 0, 0x10CD)
for i, m in {0: "sub", 1: "cmp", 6: "ld", 0xB: "add"}.items():
    _acc63(m + "e", 1, 0x1180 + i)
    _acc63(m + "f", 1, 0x11C0 + i)
_acc63("ste", 0, 0x1187)
_acc63("stf", 0, 0x11C7)
_acc63("divd", 1, 0x118D)
_acc63("divq", 2, 0x118E)
_acc63("muld", 2, 0x118F)


def ob(op):
    """opcode bytes"""
    return [op >> 8, op & 255] if op > 255 else [op]
