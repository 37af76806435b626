// Harnesses over symbolic words, records or opcodes.
harnesses! {
    total32 total16
    rec_i rec_m rec_a rec_csr rec_fence rec_priv rec_ss32 rec_ss16 rec_c
    reject32 reject16
    regs32 imm32 regs16 imm16
    xlen32 xlen16
    err_only64_32 err_only64_16 err_cause32 err_cause16
    record32 record16 formats
    length32 length16
    from_usize
    lossless32 lossless16
    expansion
    equality
    range32 range16 range_parsers
    distinct32 distinct16
    one_length
    repeat32 repeat16
    display_link32 display_link16
}
