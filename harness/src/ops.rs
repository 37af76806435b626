// One line per supported instruction:
// id = raki opcode, extension, mnemonic, base, operand layout, format class, mask, match
ops! {
    w32: {
        LUI = BaseI(BaseIOpcode::LUI), I, "lui", Any, U, UFormat, 0x0000007f, 0x00000037;
        AUIPC = BaseI(BaseIOpcode::AUIPC), I, "auipc", Any, U, UFormat, 0x0000007f, 0x00000017;
        JAL = BaseI(BaseIOpcode::JAL), I, "jal", Any, J, JFormat, 0x0000007f, 0x0000006f;
        JALR = BaseI(BaseIOpcode::JALR), I, "jalr", Any, I, IFormat, 0x0000707f, 0x00000067;
        BEQ = BaseI(BaseIOpcode::BEQ), I, "beq", Any, B, BFormat, 0x0000707f, 0x00000063;
        BNE = BaseI(BaseIOpcode::BNE), I, "bne", Any, B, BFormat, 0x0000707f, 0x00001063;
        BLT = BaseI(BaseIOpcode::BLT), I, "blt", Any, B, BFormat, 0x0000707f, 0x00004063;
        BGE = BaseI(BaseIOpcode::BGE), I, "bge", Any, B, BFormat, 0x0000707f, 0x00005063;
        BLTU = BaseI(BaseIOpcode::BLTU), I, "bltu", Any, B, BFormat, 0x0000707f, 0x00006063;
        BGEU = BaseI(BaseIOpcode::BGEU), I, "bgeu", Any, B, BFormat, 0x0000707f, 0x00007063;
        LB = BaseI(BaseIOpcode::LB), I, "lb", Any, I, IFormat, 0x0000707f, 0x00000003;
        LH = BaseI(BaseIOpcode::LH), I, "lh", Any, I, IFormat, 0x0000707f, 0x00001003;
        LW = BaseI(BaseIOpcode::LW), I, "lw", Any, I, IFormat, 0x0000707f, 0x00002003;
        LBU = BaseI(BaseIOpcode::LBU), I, "lbu", Any, I, IFormat, 0x0000707f, 0x00004003;
        LHU = BaseI(BaseIOpcode::LHU), I, "lhu", Any, I, IFormat, 0x0000707f, 0x00005003;
        SB = BaseI(BaseIOpcode::SB), I, "sb", Any, S, SFormat, 0x0000707f, 0x00000023;
        SH = BaseI(BaseIOpcode::SH), I, "sh", Any, S, SFormat, 0x0000707f, 0x00001023;
        SW = BaseI(BaseIOpcode::SW), I, "sw", Any, S, SFormat, 0x0000707f, 0x00002023;
        ADDI = BaseI(BaseIOpcode::ADDI), I, "addi", Any, I, IFormat, 0x0000707f, 0x00000013;
        SLTI = BaseI(BaseIOpcode::SLTI), I, "slti", Any, I, IFormat, 0x0000707f, 0x00002013;
        SLTIU = BaseI(BaseIOpcode::SLTIU), I, "sltiu", Any, I, IFormat, 0x0000707f, 0x00003013;
        XORI = BaseI(BaseIOpcode::XORI), I, "xori", Any, I, IFormat, 0x0000707f, 0x00004013;
        ORI = BaseI(BaseIOpcode::ORI), I, "ori", Any, I, IFormat, 0x0000707f, 0x00006013;
        ANDI = BaseI(BaseIOpcode::ANDI), I, "andi", Any, I, IFormat, 0x0000707f, 0x00007013;
        SLLI = BaseI(BaseIOpcode::SLLI), I, "slli", Any, Sh, RShamtFormat, 0xfc00707f, 0x00001013;
        SRLI = BaseI(BaseIOpcode::SRLI), I, "srli", Any, Sh, RShamtFormat, 0xfc00707f, 0x00005013;
        SRAI = BaseI(BaseIOpcode::SRAI), I, "srai", Any, Sh, RShamtFormat, 0xfc00707f, 0x40005013;
        ADD = BaseI(BaseIOpcode::ADD), I, "add", Any, R, RFormat, 0xfe00707f, 0x00000033;
        SUB = BaseI(BaseIOpcode::SUB), I, "sub", Any, R, RFormat, 0xfe00707f, 0x40000033;
        SLL = BaseI(BaseIOpcode::SLL), I, "sll", Any, R, RFormat, 0xfe00707f, 0x00001033;
        SLT = BaseI(BaseIOpcode::SLT), I, "slt", Any, R, RFormat, 0xfe00707f, 0x00002033;
        SLTU = BaseI(BaseIOpcode::SLTU), I, "sltu", Any, R, RFormat, 0xfe00707f, 0x00003033;
        XOR = BaseI(BaseIOpcode::XOR), I, "xor", Any, R, RFormat, 0xfe00707f, 0x00004033;
        SRL = BaseI(BaseIOpcode::SRL), I, "srl", Any, R, RFormat, 0xfe00707f, 0x00005033;
        SRA = BaseI(BaseIOpcode::SRA), I, "sra", Any, R, RFormat, 0xfe00707f, 0x40005033;
        OR = BaseI(BaseIOpcode::OR), I, "or", Any, R, RFormat, 0xfe00707f, 0x00006033;
        AND = BaseI(BaseIOpcode::AND), I, "and", Any, R, RFormat, 0xfe00707f, 0x00007033;
        ECALL = BaseI(BaseIOpcode::ECALL), I, "ecall", Any, None, NoOperand, 0xffffffff, 0x00000073;
        EBREAK = BaseI(BaseIOpcode::EBREAK), I, "ebreak", Any, None, NoOperand, 0xffffffff, 0x00100073;
        LWU = BaseI(BaseIOpcode::LWU), I, "lwu", Only64, I, IFormat, 0x0000707f, 0x00006003;
        LD = BaseI(BaseIOpcode::LD), I, "ld", Only64, I, IFormat, 0x0000707f, 0x00003003;
        SD = BaseI(BaseIOpcode::SD), I, "sd", Only64, S, SFormat, 0x0000707f, 0x00003023;
        ADDIW = BaseI(BaseIOpcode::ADDIW), I, "addiw", Only64, I, IFormat, 0x0000707f, 0x0000001b;
        SLLIW = BaseI(BaseIOpcode::SLLIW), I, "slliw", Only64, ShW, RShamtFormat, 0xfe00707f, 0x0000101b;
        SRLIW = BaseI(BaseIOpcode::SRLIW), I, "srliw", Only64, ShW, RShamtFormat, 0xfe00707f, 0x0000501b;
        SRAIW = BaseI(BaseIOpcode::SRAIW), I, "sraiw", Only64, ShW, RShamtFormat, 0xfe00707f, 0x4000501b;
        ADDW = BaseI(BaseIOpcode::ADDW), I, "addw", Only64, R, RFormat, 0xfe00707f, 0x0000003b;
        SUBW = BaseI(BaseIOpcode::SUBW), I, "subw", Only64, R, RFormat, 0xfe00707f, 0x4000003b;
        SLLW = BaseI(BaseIOpcode::SLLW), I, "sllw", Only64, R, RFormat, 0xfe00707f, 0x0000103b;
        SRLW = BaseI(BaseIOpcode::SRLW), I, "srlw", Only64, R, RFormat, 0xfe00707f, 0x0000503b;
        SRAW = BaseI(BaseIOpcode::SRAW), I, "sraw", Only64, R, RFormat, 0xfe00707f, 0x4000503b;
        MUL = M(MOpcode::MUL), M, "mul", Any, R, MFormat, 0xfe00707f, 0x02000033;
        MULH = M(MOpcode::MULH), M, "mulh", Any, R, MFormat, 0xfe00707f, 0x02001033;
        MULHSU = M(MOpcode::MULHSU), M, "mulhsu", Any, R, MFormat, 0xfe00707f, 0x02002033;
        MULHU = M(MOpcode::MULHU), M, "mulhu", Any, R, MFormat, 0xfe00707f, 0x02003033;
        DIV = M(MOpcode::DIV), M, "div", Any, R, MFormat, 0xfe00707f, 0x02004033;
        DIVU = M(MOpcode::DIVU), M, "divu", Any, R, MFormat, 0xfe00707f, 0x02005033;
        REM = M(MOpcode::REM), M, "rem", Any, R, MFormat, 0xfe00707f, 0x02006033;
        REMU = M(MOpcode::REMU), M, "remu", Any, R, MFormat, 0xfe00707f, 0x02007033;
        MULW = M(MOpcode::MULW), M, "mulw", Only64, R, MFormat, 0xfe00707f, 0x0200003b;
        DIVW = M(MOpcode::DIVW), M, "divw", Only64, R, MFormat, 0xfe00707f, 0x0200403b;
        DIVUW = M(MOpcode::DIVUW), M, "divuw", Only64, R, MFormat, 0xfe00707f, 0x0200503b;
        REMW = M(MOpcode::REMW), M, "remw", Only64, R, MFormat, 0xfe00707f, 0x0200603b;
        REMUW = M(MOpcode::REMUW), M, "remuw", Only64, R, MFormat, 0xfe00707f, 0x0200703b;
        LR_W = A(AOpcode::LR_W), A, "lr.w", Any, Lr, ALrFormat, 0xf9f0707f, 0x1000202f;
        SC_W = A(AOpcode::SC_W), A, "sc.w", Any, Amo, AFormat, 0xf800707f, 0x1800202f;
        AMOSWAP_W = A(AOpcode::AMOSWAP_W), A, "amoswap.w", Any, Amo, AFormat, 0xf800707f, 0x0800202f;
        AMOADD_W = A(AOpcode::AMOADD_W), A, "amoadd.w", Any, Amo, AFormat, 0xf800707f, 0x0000202f;
        AMOXOR_W = A(AOpcode::AMOXOR_W), A, "amoxor.w", Any, Amo, AFormat, 0xf800707f, 0x2000202f;
        AMOAND_W = A(AOpcode::AMOAND_W), A, "amoand.w", Any, Amo, AFormat, 0xf800707f, 0x6000202f;
        AMOOR_W = A(AOpcode::AMOOR_W), A, "amoor.w", Any, Amo, AFormat, 0xf800707f, 0x4000202f;
        AMOMIN_W = A(AOpcode::AMOMIN_W), A, "amomin.w", Any, Amo, AFormat, 0xf800707f, 0x8000202f;
        AMOMAX_W = A(AOpcode::AMOMAX_W), A, "amomax.w", Any, Amo, AFormat, 0xf800707f, 0xa000202f;
        AMOMINU_W = A(AOpcode::AMOMINU_W), A, "amominu.w", Any, Amo, AFormat, 0xf800707f, 0xc000202f;
        AMOMAXU_W = A(AOpcode::AMOMAXU_W), A, "amomaxu.w", Any, Amo, AFormat, 0xf800707f, 0xe000202f;
        LR_D = A(AOpcode::LR_D), A, "lr.d", Only64, Lr, ALrFormat, 0xf9f0707f, 0x1000302f;
        SC_D = A(AOpcode::SC_D), A, "sc.d", Only64, Amo, AFormat, 0xf800707f, 0x1800302f;
        AMOSWAP_D = A(AOpcode::AMOSWAP_D), A, "amoswap.d", Only64, Amo, AFormat, 0xf800707f, 0x0800302f;
        AMOADD_D = A(AOpcode::AMOADD_D), A, "amoadd.d", Only64, Amo, AFormat, 0xf800707f, 0x0000302f;
        AMOXOR_D = A(AOpcode::AMOXOR_D), A, "amoxor.d", Only64, Amo, AFormat, 0xf800707f, 0x2000302f;
        AMOAND_D = A(AOpcode::AMOAND_D), A, "amoand.d", Only64, Amo, AFormat, 0xf800707f, 0x6000302f;
        AMOOR_D = A(AOpcode::AMOOR_D), A, "amoor.d", Only64, Amo, AFormat, 0xf800707f, 0x4000302f;
        AMOMIN_D = A(AOpcode::AMOMIN_D), A, "amomin.d", Only64, Amo, AFormat, 0xf800707f, 0x8000302f;
        AMOMAX_D = A(AOpcode::AMOMAX_D), A, "amomax.d", Only64, Amo, AFormat, 0xf800707f, 0xa000302f;
        AMOMINU_D = A(AOpcode::AMOMINU_D), A, "amominu.d", Only64, Amo, AFormat, 0xf800707f, 0xc000302f;
        AMOMAXU_D = A(AOpcode::AMOMAXU_D), A, "amomaxu.d", Only64, Amo, AFormat, 0xf800707f, 0xe000302f;
        FENCE = Zifencei(ZifenceiOpcode::FENCE), Zifencei, "fence", Any, Fence, NoOperand, 0x0000707f, 0x0000000f;
        CBO_ZERO = Zicboz(ZicbozOpcode::CBO_ZERO), Zicboz, "cbo.zero", Any, Rs1, OnlyRs1, 0xfff07fff, 0x0040200f;
        CSRRW = Zicsr(ZicsrOpcode::CSRRW), Zicsr, "csrrw", Any, Csr, CsrFormat, 0x0000707f, 0x00001073;
        CSRRS = Zicsr(ZicsrOpcode::CSRRS), Zicsr, "csrrs", Any, Csr, CsrFormat, 0x0000707f, 0x00002073;
        CSRRC = Zicsr(ZicsrOpcode::CSRRC), Zicsr, "csrrc", Any, Csr, CsrFormat, 0x0000707f, 0x00003073;
        CSRRWI = Zicsr(ZicsrOpcode::CSRRWI), Zicsr, "csrrwi", Any, CsrI, CsrUiFormat, 0x0000707f, 0x00005073;
        CSRRSI = Zicsr(ZicsrOpcode::CSRRSI), Zicsr, "csrrsi", Any, CsrI, CsrUiFormat, 0x0000707f, 0x00006073;
        CSRRCI = Zicsr(ZicsrOpcode::CSRRCI), Zicsr, "csrrci", Any, CsrI, CsrUiFormat, 0x0000707f, 0x00007073;
        RDCYCLE = Zicntr(ZicntrOpcode::RDCYCLE), Zicntr, "rdcycle", Any, Rd, OnlyRd, 0xfffff07f, 0xc0002073;
        RDTIME = Zicntr(ZicntrOpcode::RDTIME), Zicntr, "rdtime", Any, Rd, OnlyRd, 0xfffff07f, 0xc0102073;
        RDINSTRET = Zicntr(ZicntrOpcode::RDINSTRET), Zicntr, "rdinstret", Any, Rd, OnlyRd, 0xfffff07f, 0xc0202073;
        RDCYCLE_H = Zicntr(ZicntrOpcode::RDCYCLE_H), Zicntr, "rdcycleh", Only32, Rd, OnlyRd, 0xfffff07f, 0xc8002073;
        RDTIME_H = Zicntr(ZicntrOpcode::RDTIME_H), Zicntr, "rdtimeh", Only32, Rd, OnlyRd, 0xfffff07f, 0xc8102073;
        RDINSTRET_H = Zicntr(ZicntrOpcode::RDINSTRET_H), Zicntr, "rdinstreth", Only32, Rd, OnlyRd, 0xfffff07f, 0xc8202073;
        SSPUSH = Zicfiss(ZicfissOpcode::SSPUSH), Zicfiss, "sspush", Any, SsPush, OnlyRs2, 0xffbfffff, 0xce104073;
        SSPOPCHK = Zicfiss(ZicfissOpcode::SSPOPCHK), Zicfiss, "sspopchk", Any, SsPop, OnlyRs1, 0xfff07fff, 0xcdc04073;
        SSRDP = Zicfiss(ZicfissOpcode::SSRDP), Zicfiss, "ssrdp", Any, Rd, OnlyRd, 0xfffff07f, 0xcdc04073;
        SSAMOSWAP_W = Zicfiss(ZicfissOpcode::SSAMOSWAP_W), Zicfiss, "ssamoswap.w", Any, SsAmo, AFormat, 0xf800707f, 0x4800202f;
        SSAMOSWAP_D = Zicfiss(ZicfissOpcode::SSAMOSWAP_D), Zicfiss, "ssamoswap.d", Only64, SsAmo, AFormat, 0xf800707f, 0x4800302f;
        SRET = Priv(PrivOpcode::SRET), Priv, "sret", Any, None, NoOperand, 0xffffffff, 0x10200073;
        MRET = Priv(PrivOpcode::MRET), Priv, "mret", Any, None, NoOperand, 0xffffffff, 0x30200073;
        WFI = Priv(PrivOpcode::WFI), Priv, "wfi", Any, None, NoOperand, 0xffffffff, 0x10500073;
        SFENCE_VMA = Priv(PrivOpcode::SFENCE_VMA), Priv, "sfence.vma", Any, Rs12, RFormat, 0xfe007fff, 0x12000073;
    }
    w16: {
        C_SSPUSH = Zicfiss(ZicfissOpcode::C_SSPUSH), Zicfiss, "c.sspush", Any, CSsPush, OnlyRd, 0xffff, 0x6081;
        C_SSPOPCHK = Zicfiss(ZicfissOpcode::C_SSPOPCHK), Zicfiss, "c.sspopchk", Any, CSsPop, OnlyRd, 0xffff, 0x6281;
        C_ADDI4SPN = C(COpcode::ADDI4SPN), C, "C.addi4spn", Any, Ciw, CiwFormat, 0xe003, 0x0000;
        C_LW = C(COpcode::LW), C, "C.lw", Any, ClW, ClFormat, 0xe003, 0x4000;
        C_LD = C(COpcode::LD), C, "C.ld", Only64, ClD, ClFormat, 0xe003, 0x6000;
        C_SW = C(COpcode::SW), C, "C.sw", Any, CsW, CsFormat, 0xe003, 0xc000;
        C_SD = C(COpcode::SD), C, "C.sd", Only64, CsD, CsFormat, 0xe003, 0xe000;
        C_NOP = C(COpcode::NOP), C, "C.nop", Any, CNop, NoOperand, 0xef83, 0x0001;
        C_ADDI = C(COpcode::ADDI), C, "C.addi", Any, Ci, CiFormat, 0xe003, 0x0001;
        C_JAL = C(COpcode::JAL), C, "C.jal", Only32, Cj, CjFormat, 0xe003, 0x2001;
        C_ADDIW = C(COpcode::ADDIW), C, "C.addiw", Only64, Ci, CiFormat, 0xe003, 0x2001;
        C_LI = C(COpcode::LI), C, "C.li", Any, CLi, CiFormat, 0xe003, 0x4001;
        C_ADDI16SP = C(COpcode::ADDI16SP), C, "C.addi16sp", Any, C16sp, CiFormat, 0xef83, 0x6101;
        C_LUI = C(COpcode::LUI), C, "C.lui", Any, CLui, CiFormat, 0xe003, 0x6001;
        C_SRLI = C(COpcode::SRLI), C, "C.srli", Any, CSh, CbFormat, 0xec03, 0x8001;
        C_SRAI = C(COpcode::SRAI), C, "C.srai", Any, CSh, CbFormat, 0xec03, 0x8401;
        C_ANDI = C(COpcode::ANDI), C, "C.andi", Any, CAndi, CbFormat, 0xec03, 0x8801;
        C_SUB = C(COpcode::SUB), C, "C.sub", Any, Ca, CaFormat, 0xfc63, 0x8c01;
        C_XOR = C(COpcode::XOR), C, "C.xor", Any, Ca, CaFormat, 0xfc63, 0x8c21;
        C_OR = C(COpcode::OR), C, "C.or", Any, Ca, CaFormat, 0xfc63, 0x8c41;
        C_AND = C(COpcode::AND), C, "C.and", Any, Ca, CaFormat, 0xfc63, 0x8c61;
        C_SUBW = C(COpcode::SUBW), C, "C.subw", Only64, Ca, CaFormat, 0xfc63, 0x9c01;
        C_ADDW = C(COpcode::ADDW), C, "C.addw", Only64, Ca, CaFormat, 0xfc63, 0x9c21;
        C_J = C(COpcode::J), C, "C.j", Any, Cj, CjFormat, 0xe003, 0xa001;
        C_BEQZ = C(COpcode::BEQZ), C, "C.beqz", Any, Cb, CbFormat, 0xe003, 0xc001;
        C_BNEZ = C(COpcode::BNEZ), C, "C.bnez", Any, Cb, CbFormat, 0xe003, 0xe001;
        C_SLLI = C(COpcode::SLLI), C, "C.slli", Any, CSlli, CiFormat, 0xe003, 0x0002;
        C_LWSP = C(COpcode::LWSP), C, "C.lwsp", Any, CLwsp, CiFormat, 0xe003, 0x4002;
        C_LDSP = C(COpcode::LDSP), C, "C.ldsp", Only64, CLdsp, CiFormat, 0xe003, 0x6002;
        C_JR = C(COpcode::JR), C, "C.jr", Any, CJr, CrFormat, 0xf07f, 0x8002;
        C_MV = C(COpcode::MV), C, "C.mv", Any, CMv, CrFormat, 0xf003, 0x8002;
        C_EBREAK = C(COpcode::EBREAK), C, "C.ebreak", Any, CNone, NoOperand, 0xffff, 0x9002;
        C_JALR = C(COpcode::JALR), C, "C.jalr", Any, CJr, CrFormat, 0xf07f, 0x9002;
        C_ADD = C(COpcode::ADD), C, "C.add", Any, CAdd, CrFormat, 0xf003, 0x9002;
        C_SWSP = C(COpcode::SWSP), C, "C.swsp", Any, CSwsp, CssFormat, 0xe003, 0xc002;
        C_SDSP = C(COpcode::SDSP), C, "C.sdsp", Only64, CSdsp, CssFormat, 0xe003, 0xe002;
    }
}
