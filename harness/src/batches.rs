// Which opcodes share a display harness: `w..` 32-bit, `c..` 16-bit. Balanced
// by expected solving time; every opcode appears exactly once.
batches! {
    w00: CSRRWI AMOMIN_W;
    w01: CSRRSI AMOMAX_W;
    w02: CSRRCI AMOMINU_W;
    w03: JALR OR AMOXOR_D;
    w04: BEQ AND AMOAND_D;
    w05: BNE ECALL AMOOR_D;
    w06: BLT EBREAK AMOMIN_D;
    w07: BGE ADDW AMOMAX_D;
    w08: BLTU SUBW AMOMINU_D;
    w09: BGEU SLLW AMOMAXU_D;
    w10: LB SRLW FENCE;
    w11: LH SRAW CBO_ZERO;
    w12: LW MUL RDCYCLE;
    w13: LBU MULH RDTIME;
    w14: LHU MULHSU RDINSTRET;
    w15: SB MULHU RDCYCLE_H;
    w16: SH DIV RDTIME_H;
    w17: SW DIVU RDINSTRET_H;
    w18: ADDI REM SSPUSH;
    w19: SLTI REMU SSPOPCHK;
    w20: SLTIU MULW SSRDP;
    w21: XORI DIVW SSAMOSWAP_W;
    w22: ORI DIVUW SSAMOSWAP_D;
    w23: ANDI REMW SRET;
    w24: LWU REMUW MRET;
    w25: LD LR_W WFI;
    w26: SD SC_W SFENCE_VMA;
    w27: ADDIW AMOSWAP_W;
    w28: JAL SLL AMOADD_W;
    w29: CSRRW SLT AMOXOR_W;
    w30: CSRRS SLTU AMOAND_W;
    w31: CSRRC XOR AMOOR_W;
    w32: LUI SLLIW AMOMAXU_W;
    w33: AUIPC SRLIW LR_D;
    w34: SLLI SRAIW SC_D;
    w35: SRLI ADD SRL AMOSWAP_D;
    w36: SRAI SUB SRA AMOADD_D;
    c00: C_LUI C_SSPOPCHK C_ADD;
    c01: C_ADDI16SP C_SSPUSH C_NOP;
    c02: C_JAL C_SRLI C_XOR;
    c03: C_J C_SRAI C_OR;
    c04: C_LW C_BEQZ C_AND;
    c05: C_LD C_BNEZ C_SUBW;
    c06: C_SW C_SLLI C_ADDW;
    c07: C_SD C_LWSP C_JR;
    c08: C_ADDI C_LDSP C_MV;
    c09: C_ADDIW C_SWSP C_EBREAK;
    c10: C_LI C_SDSP C_JALR;
    c11: C_ANDI C_ADDI4SPN C_SUB;
}
