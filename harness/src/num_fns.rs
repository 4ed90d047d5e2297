// The functions generated code calls for arithmetic (names determine their types).
{
binary! {
    add_i16 "add" i16, i16 => i16;
    add_i16_i32 "add" i16, i16 => i32;
    add_i16_i32_i32 "add" i16, i32 => i32;
    add_i16_i32_i64 "add" i16, i32 => i64;
    add_i16_i64 "add" i16, i16 => i64;
    add_i16_i8_i16 "add" i16, i8 => i16;
    add_i16_i8_i32 "add" i16, i8 => i32;
    add_i16_i8_i64 "add" i16, i8 => i64;
    add_i16_u16_i32 "add" i16, u16 => i32;
    add_i16_u16_i64 "add" i16, u16 => i64;
    add_i16_u32_i64 "add" i16, u32 => i64;
    add_i16_u8_i16 "add" i16, u8 => i16;
    add_i16_u8_i32 "add" i16, u8 => i32;
    add_i16_u8_i64 "add" i16, u8 => i64;
    add_i32 "add" i32, i32 => i32;
    add_i32_i16_i32 "add" i32, i16 => i32;
    add_i32_i16_i64 "add" i32, i16 => i64;
    add_i32_i64 "add" i32, i32 => i64;
    add_i32_i8_i32 "add" i32, i8 => i32;
    add_i32_i8_i64 "add" i32, i8 => i64;
    add_i32_u16_i32 "add" i32, u16 => i32;
    add_i32_u16_i64 "add" i32, u16 => i64;
    add_i32_u32_i64 "add" i32, u32 => i64;
    add_i32_u8_i32 "add" i32, u8 => i32;
    add_i32_u8_i64 "add" i32, u8 => i64;
    add_i64 "add" i64, i64 => i64;
    add_i8 "add" i8, i8 => i8;
    add_i8_i16 "add" i8, i8 => i16;
    add_i8_i16_i16 "add" i8, i16 => i16;
    add_i8_i16_i32 "add" i8, i16 => i32;
    add_i8_i16_i64 "add" i8, i16 => i64;
    add_i8_i32 "add" i8, i8 => i32;
    add_i8_i32_i32 "add" i8, i32 => i32;
    add_i8_i32_i64 "add" i8, i32 => i64;
    add_i8_i64 "add" i8, i8 => i64;
    add_i8_u16_i32 "add" i8, u16 => i32;
    add_i8_u16_i64 "add" i8, u16 => i64;
    add_i8_u32_i64 "add" i8, u32 => i64;
    add_i8_u8_i16 "add" i8, u8 => i16;
    add_i8_u8_i32 "add" i8, u8 => i32;
    add_i8_u8_i64 "add" i8, u8 => i64;
    add_u16 "add" u16, u16 => u16;
    add_u16_i16_i32 "add" u16, i16 => i32;
    add_u16_i16_i64 "add" u16, i16 => i64;
    add_u16_i32 "add" u16, u16 => i32;
    add_u16_i32_i32 "add" u16, i32 => i32;
    add_u16_i32_i64 "add" u16, i32 => i64;
    add_u16_i64 "add" u16, u16 => i64;
    add_u16_i8_i32 "add" u16, i8 => i32;
    add_u16_i8_i64 "add" u16, i8 => i64;
    add_u16_u32 "add" u16, u16 => u32;
    add_u16_u32_i64 "add" u16, u32 => i64;
    add_u16_u32_u32 "add" u16, u32 => u32;
    add_u16_u32_u64 "add" u16, u32 => u64;
    add_u16_u64 "add" u16, u16 => u64;
    add_u16_u8_i32 "add" u16, u8 => i32;
    add_u16_u8_i64 "add" u16, u8 => i64;
    add_u16_u8_u16 "add" u16, u8 => u16;
    add_u16_u8_u32 "add" u16, u8 => u32;
    add_u16_u8_u64 "add" u16, u8 => u64;
    add_u32 "add" u32, u32 => u32;
    add_u32_i16_i64 "add" u32, i16 => i64;
    add_u32_i32_i64 "add" u32, i32 => i64;
    add_u32_i64 "add" u32, u32 => i64;
    add_u32_i8_i64 "add" u32, i8 => i64;
    add_u32_u16_i64 "add" u32, u16 => i64;
    add_u32_u16_u32 "add" u32, u16 => u32;
    add_u32_u16_u64 "add" u32, u16 => u64;
    add_u32_u64 "add" u32, u32 => u64;
    add_u32_u8_i64 "add" u32, u8 => i64;
    add_u32_u8_u32 "add" u32, u8 => u32;
    add_u32_u8_u64 "add" u32, u8 => u64;
    add_u64 "add" u64, u64 => u64;
    add_u8 "add" u8, u8 => u8;
    add_u8_i16 "add" u8, u8 => i16;
    add_u8_i16_i16 "add" u8, i16 => i16;
    add_u8_i16_i32 "add" u8, i16 => i32;
    add_u8_i16_i64 "add" u8, i16 => i64;
    add_u8_i32 "add" u8, u8 => i32;
    add_u8_i32_i32 "add" u8, i32 => i32;
    add_u8_i32_i64 "add" u8, i32 => i64;
    add_u8_i64 "add" u8, u8 => i64;
    add_u8_i8_i16 "add" u8, i8 => i16;
    add_u8_i8_i32 "add" u8, i8 => i32;
    add_u8_i8_i64 "add" u8, i8 => i64;
    add_u8_u16 "add" u8, u8 => u16;
    add_u8_u16_i32 "add" u8, u16 => i32;
    add_u8_u16_i64 "add" u8, u16 => i64;
    add_u8_u16_u16 "add" u8, u16 => u16;
    add_u8_u16_u32 "add" u8, u16 => u32;
    add_u8_u16_u64 "add" u8, u16 => u64;
    add_u8_u32 "add" u8, u8 => u32;
    add_u8_u32_i64 "add" u8, u32 => i64;
    add_u8_u32_u32 "add" u8, u32 => u32;
    add_u8_u32_u64 "add" u8, u32 => u64;
    add_u8_u64 "add" u8, u8 => u64;
    div_i16 "div" i16, i16 => i16;
    div_i16_i32 "div" i16, i16 => i32;
    div_i16_i32_i32 "div" i16, i32 => i32;
    div_i16_i32_i64 "div" i16, i32 => i64;
    div_i16_i64 "div" i16, i16 => i64;
    div_i16_i8_i16 "div" i16, i8 => i16;
    div_i16_i8_i32 "div" i16, i8 => i32;
    div_i16_i8_i64 "div" i16, i8 => i64;
    div_i16_u16_i32 "div" i16, u16 => i32;
    div_i16_u16_i64 "div" i16, u16 => i64;
    div_i16_u32_i64 "div" i16, u32 => i64;
    div_i16_u8_i16 "div" i16, u8 => i16;
    div_i16_u8_i32 "div" i16, u8 => i32;
    div_i16_u8_i64 "div" i16, u8 => i64;
    div_i32 "div" i32, i32 => i32;
    div_i32_i16_i32 "div" i32, i16 => i32;
    div_i32_i16_i64 "div" i32, i16 => i64;
    div_i32_i64 "div" i32, i32 => i64;
    div_i32_i8_i32 "div" i32, i8 => i32;
    div_i32_i8_i64 "div" i32, i8 => i64;
    div_i32_u16_i32 "div" i32, u16 => i32;
    div_i32_u16_i64 "div" i32, u16 => i64;
    div_i32_u32_i64 "div" i32, u32 => i64;
    div_i32_u8_i32 "div" i32, u8 => i32;
    div_i32_u8_i64 "div" i32, u8 => i64;
    div_i64 "div" i64, i64 => i64;
    div_i8 "div" i8, i8 => i8;
    div_i8_i16 "div" i8, i8 => i16;
    div_i8_i16_i16 "div" i8, i16 => i16;
    div_i8_i16_i32 "div" i8, i16 => i32;
    div_i8_i16_i64 "div" i8, i16 => i64;
    div_i8_i32 "div" i8, i8 => i32;
    div_i8_i32_i32 "div" i8, i32 => i32;
    div_i8_i32_i64 "div" i8, i32 => i64;
    div_i8_i64 "div" i8, i8 => i64;
    div_i8_u16_i32 "div" i8, u16 => i32;
    div_i8_u16_i64 "div" i8, u16 => i64;
    div_i8_u32_i64 "div" i8, u32 => i64;
    div_i8_u8_i16 "div" i8, u8 => i16;
    div_i8_u8_i32 "div" i8, u8 => i32;
    div_i8_u8_i64 "div" i8, u8 => i64;
    div_u16 "div" u16, u16 => u16;
    div_u16_i16_i32 "div" u16, i16 => i32;
    div_u16_i16_i64 "div" u16, i16 => i64;
    div_u16_i32 "div" u16, u16 => i32;
    div_u16_i32_i32 "div" u16, i32 => i32;
    div_u16_i32_i64 "div" u16, i32 => i64;
    div_u16_i64 "div" u16, u16 => i64;
    div_u16_i8_i32 "div" u16, i8 => i32;
    div_u16_i8_i64 "div" u16, i8 => i64;
    div_u16_u32 "div" u16, u16 => u32;
    div_u16_u32_i64 "div" u16, u32 => i64;
    div_u16_u32_u32 "div" u16, u32 => u32;
    div_u16_u32_u64 "div" u16, u32 => u64;
    div_u16_u64 "div" u16, u16 => u64;
    div_u16_u8_i32 "div" u16, u8 => i32;
    div_u16_u8_i64 "div" u16, u8 => i64;
    div_u16_u8_u16 "div" u16, u8 => u16;
    div_u16_u8_u32 "div" u16, u8 => u32;
    div_u16_u8_u64 "div" u16, u8 => u64;
    div_u32 "div" u32, u32 => u32;
    div_u32_i16_i64 "div" u32, i16 => i64;
    div_u32_i32_i64 "div" u32, i32 => i64;
    div_u32_i64 "div" u32, u32 => i64;
    div_u32_i8_i64 "div" u32, i8 => i64;
    div_u32_u16_i64 "div" u32, u16 => i64;
    div_u32_u16_u32 "div" u32, u16 => u32;
    div_u32_u16_u64 "div" u32, u16 => u64;
    div_u32_u64 "div" u32, u32 => u64;
    div_u32_u8_i64 "div" u32, u8 => i64;
    div_u32_u8_u32 "div" u32, u8 => u32;
    div_u32_u8_u64 "div" u32, u8 => u64;
    div_u64 "div" u64, u64 => u64;
    div_u8 "div" u8, u8 => u8;
    div_u8_i16 "div" u8, u8 => i16;
    div_u8_i16_i16 "div" u8, i16 => i16;
    div_u8_i16_i32 "div" u8, i16 => i32;
    div_u8_i16_i64 "div" u8, i16 => i64;
    div_u8_i32 "div" u8, u8 => i32;
    div_u8_i32_i32 "div" u8, i32 => i32;
    div_u8_i32_i64 "div" u8, i32 => i64;
    div_u8_i64 "div" u8, u8 => i64;
    div_u8_i8_i16 "div" u8, i8 => i16;
    div_u8_i8_i32 "div" u8, i8 => i32;
    div_u8_i8_i64 "div" u8, i8 => i64;
    div_u8_u16 "div" u8, u8 => u16;
    div_u8_u16_i32 "div" u8, u16 => i32;
    div_u8_u16_i64 "div" u8, u16 => i64;
    div_u8_u16_u16 "div" u8, u16 => u16;
    div_u8_u16_u32 "div" u8, u16 => u32;
    div_u8_u16_u64 "div" u8, u16 => u64;
    div_u8_u32 "div" u8, u8 => u32;
    div_u8_u32_i64 "div" u8, u32 => i64;
    div_u8_u32_u32 "div" u8, u32 => u32;
    div_u8_u32_u64 "div" u8, u32 => u64;
    div_u8_u64 "div" u8, u8 => u64;
    mul_i16 "mul" i16, i16 => i16;
    mul_i16_i32 "mul" i16, i16 => i32;
    mul_i16_i32_i32 "mul" i16, i32 => i32;
    mul_i16_i32_i64 "mul" i16, i32 => i64;
    mul_i16_i64 "mul" i16, i16 => i64;
    mul_i16_i8_i16 "mul" i16, i8 => i16;
    mul_i16_i8_i32 "mul" i16, i8 => i32;
    mul_i16_i8_i64 "mul" i16, i8 => i64;
    mul_i16_u16_i32 "mul" i16, u16 => i32;
    mul_i16_u16_i64 "mul" i16, u16 => i64;
    mul_i16_u32_i64 "mul" i16, u32 => i64;
    mul_i16_u8_i16 "mul" i16, u8 => i16;
    mul_i16_u8_i32 "mul" i16, u8 => i32;
    mul_i16_u8_i64 "mul" i16, u8 => i64;
    mul_i32 "mul" i32, i32 => i32;
    mul_i32_i16_i32 "mul" i32, i16 => i32;
    mul_i32_i16_i64 "mul" i32, i16 => i64;
    mul_i32_i64 "mul" i32, i32 => i64;
    mul_i32_i8_i32 "mul" i32, i8 => i32;
    mul_i32_i8_i64 "mul" i32, i8 => i64;
    mul_i32_u16_i32 "mul" i32, u16 => i32;
    mul_i32_u16_i64 "mul" i32, u16 => i64;
    mul_i32_u32_i64 "mul" i32, u32 => i64;
    mul_i32_u8_i32 "mul" i32, u8 => i32;
    mul_i32_u8_i64 "mul" i32, u8 => i64;
    mul_i64 "mul" i64, i64 => i64;
    mul_i8 "mul" i8, i8 => i8;
    mul_i8_i16 "mul" i8, i8 => i16;
    mul_i8_i16_i16 "mul" i8, i16 => i16;
    mul_i8_i16_i32 "mul" i8, i16 => i32;
    mul_i8_i16_i64 "mul" i8, i16 => i64;
    mul_i8_i32 "mul" i8, i8 => i32;
    mul_i8_i32_i32 "mul" i8, i32 => i32;
    mul_i8_i32_i64 "mul" i8, i32 => i64;
    mul_i8_i64 "mul" i8, i8 => i64;
    mul_i8_u16_i32 "mul" i8, u16 => i32;
    mul_i8_u16_i64 "mul" i8, u16 => i64;
    mul_i8_u32_i64 "mul" i8, u32 => i64;
    mul_i8_u8_i16 "mul" i8, u8 => i16;
    mul_i8_u8_i32 "mul" i8, u8 => i32;
    mul_i8_u8_i64 "mul" i8, u8 => i64;
    mul_u16 "mul" u16, u16 => u16;
    mul_u16_i16_i32 "mul" u16, i16 => i32;
    mul_u16_i16_i64 "mul" u16, i16 => i64;
    mul_u16_i32 "mul" u16, u16 => i32;
    mul_u16_i32_i32 "mul" u16, i32 => i32;
    mul_u16_i32_i64 "mul" u16, i32 => i64;
    mul_u16_i64 "mul" u16, u16 => i64;
    mul_u16_i8_i32 "mul" u16, i8 => i32;
    mul_u16_i8_i64 "mul" u16, i8 => i64;
    mul_u16_u32 "mul" u16, u16 => u32;
    mul_u16_u32_i64 "mul" u16, u32 => i64;
    mul_u16_u32_u32 "mul" u16, u32 => u32;
    mul_u16_u32_u64 "mul" u16, u32 => u64;
    mul_u16_u64 "mul" u16, u16 => u64;
    mul_u16_u8_i32 "mul" u16, u8 => i32;
    mul_u16_u8_i64 "mul" u16, u8 => i64;
    mul_u16_u8_u16 "mul" u16, u8 => u16;
    mul_u16_u8_u32 "mul" u16, u8 => u32;
    mul_u16_u8_u64 "mul" u16, u8 => u64;
    mul_u32 "mul" u32, u32 => u32;
    mul_u32_i16_i64 "mul" u32, i16 => i64;
    mul_u32_i32_i64 "mul" u32, i32 => i64;
    mul_u32_i64 "mul" u32, u32 => i64;
    mul_u32_i8_i64 "mul" u32, i8 => i64;
    mul_u32_u16_i64 "mul" u32, u16 => i64;
    mul_u32_u16_u32 "mul" u32, u16 => u32;
    mul_u32_u16_u64 "mul" u32, u16 => u64;
    mul_u32_u64 "mul" u32, u32 => u64;
    mul_u32_u8_i64 "mul" u32, u8 => i64;
    mul_u32_u8_u32 "mul" u32, u8 => u32;
    mul_u32_u8_u64 "mul" u32, u8 => u64;
    mul_u64 "mul" u64, u64 => u64;
    mul_u8 "mul" u8, u8 => u8;
    mul_u8_i16 "mul" u8, u8 => i16;
    mul_u8_i16_i16 "mul" u8, i16 => i16;
    mul_u8_i16_i32 "mul" u8, i16 => i32;
    mul_u8_i16_i64 "mul" u8, i16 => i64;
    mul_u8_i32 "mul" u8, u8 => i32;
    mul_u8_i32_i32 "mul" u8, i32 => i32;
    mul_u8_i32_i64 "mul" u8, i32 => i64;
    mul_u8_i64 "mul" u8, u8 => i64;
    mul_u8_i8_i16 "mul" u8, i8 => i16;
    mul_u8_i8_i32 "mul" u8, i8 => i32;
    mul_u8_i8_i64 "mul" u8, i8 => i64;
    mul_u8_u16 "mul" u8, u8 => u16;
    mul_u8_u16_i32 "mul" u8, u16 => i32;
    mul_u8_u16_i64 "mul" u8, u16 => i64;
    mul_u8_u16_u16 "mul" u8, u16 => u16;
    mul_u8_u16_u32 "mul" u8, u16 => u32;
    mul_u8_u16_u64 "mul" u8, u16 => u64;
    mul_u8_u32 "mul" u8, u8 => u32;
    mul_u8_u32_i64 "mul" u8, u32 => i64;
    mul_u8_u32_u32 "mul" u8, u32 => u32;
    mul_u8_u32_u64 "mul" u8, u32 => u64;
    mul_u8_u64 "mul" u8, u8 => u64;
    rem_i16 "rem" i16, i16 => i16;
    rem_i16_i32 "rem" i16, i16 => i32;
    rem_i16_i32_i32 "rem" i16, i32 => i32;
    rem_i16_i32_i64 "rem" i16, i32 => i64;
    rem_i16_i64 "rem" i16, i16 => i64;
    rem_i16_i8_i16 "rem" i16, i8 => i16;
    rem_i16_i8_i32 "rem" i16, i8 => i32;
    rem_i16_i8_i64 "rem" i16, i8 => i64;
    rem_i16_u16_i32 "rem" i16, u16 => i32;
    rem_i16_u16_i64 "rem" i16, u16 => i64;
    rem_i16_u32_i64 "rem" i16, u32 => i64;
    rem_i16_u8_i16 "rem" i16, u8 => i16;
    rem_i16_u8_i32 "rem" i16, u8 => i32;
    rem_i16_u8_i64 "rem" i16, u8 => i64;
    rem_i32 "rem" i32, i32 => i32;
    rem_i32_i16_i32 "rem" i32, i16 => i32;
    rem_i32_i16_i64 "rem" i32, i16 => i64;
    rem_i32_i64 "rem" i32, i32 => i64;
    rem_i32_i8_i32 "rem" i32, i8 => i32;
    rem_i32_i8_i64 "rem" i32, i8 => i64;
    rem_i32_u16_i32 "rem" i32, u16 => i32;
    rem_i32_u16_i64 "rem" i32, u16 => i64;
    rem_i32_u32_i64 "rem" i32, u32 => i64;
    rem_i32_u8_i32 "rem" i32, u8 => i32;
    rem_i32_u8_i64 "rem" i32, u8 => i64;
    rem_i64 "rem" i64, i64 => i64;
    rem_i8 "rem" i8, i8 => i8;
    rem_i8_i16 "rem" i8, i8 => i16;
    rem_i8_i16_i16 "rem" i8, i16 => i16;
    rem_i8_i16_i32 "rem" i8, i16 => i32;
    rem_i8_i16_i64 "rem" i8, i16 => i64;
    rem_i8_i32 "rem" i8, i8 => i32;
    rem_i8_i32_i32 "rem" i8, i32 => i32;
    rem_i8_i32_i64 "rem" i8, i32 => i64;
    rem_i8_i64 "rem" i8, i8 => i64;
    rem_i8_u16_i32 "rem" i8, u16 => i32;
    rem_i8_u16_i64 "rem" i8, u16 => i64;
    rem_i8_u32_i64 "rem" i8, u32 => i64;
    rem_i8_u8_i16 "rem" i8, u8 => i16;
    rem_i8_u8_i32 "rem" i8, u8 => i32;
    rem_i8_u8_i64 "rem" i8, u8 => i64;
    rem_u16 "rem" u16, u16 => u16;
    rem_u16_i16_i32 "rem" u16, i16 => i32;
    rem_u16_i16_i64 "rem" u16, i16 => i64;
    rem_u16_i32 "rem" u16, u16 => i32;
    rem_u16_i32_i32 "rem" u16, i32 => i32;
    rem_u16_i32_i64 "rem" u16, i32 => i64;
    rem_u16_i64 "rem" u16, u16 => i64;
    rem_u16_i8_i32 "rem" u16, i8 => i32;
    rem_u16_i8_i64 "rem" u16, i8 => i64;
    rem_u16_u32 "rem" u16, u16 => u32;
    rem_u16_u32_i64 "rem" u16, u32 => i64;
    rem_u16_u32_u32 "rem" u16, u32 => u32;
    rem_u16_u32_u64 "rem" u16, u32 => u64;
    rem_u16_u64 "rem" u16, u16 => u64;
    rem_u16_u8_i32 "rem" u16, u8 => i32;
    rem_u16_u8_i64 "rem" u16, u8 => i64;
    rem_u16_u8_u16 "rem" u16, u8 => u16;
    rem_u16_u8_u32 "rem" u16, u8 => u32;
    rem_u16_u8_u64 "rem" u16, u8 => u64;
    rem_u32 "rem" u32, u32 => u32;
    rem_u32_i16_i64 "rem" u32, i16 => i64;
    rem_u32_i32_i64 "rem" u32, i32 => i64;
    rem_u32_i64 "rem" u32, u32 => i64;
    rem_u32_i8_i64 "rem" u32, i8 => i64;
    rem_u32_u16_i64 "rem" u32, u16 => i64;
    rem_u32_u16_u32 "rem" u32, u16 => u32;
    rem_u32_u16_u64 "rem" u32, u16 => u64;
    rem_u32_u64 "rem" u32, u32 => u64;
    rem_u32_u8_i64 "rem" u32, u8 => i64;
    rem_u32_u8_u32 "rem" u32, u8 => u32;
    rem_u32_u8_u64 "rem" u32, u8 => u64;
    rem_u64 "rem" u64, u64 => u64;
    rem_u8 "rem" u8, u8 => u8;
    rem_u8_i16 "rem" u8, u8 => i16;
    rem_u8_i16_i16 "rem" u8, i16 => i16;
    rem_u8_i16_i32 "rem" u8, i16 => i32;
    rem_u8_i16_i64 "rem" u8, i16 => i64;
    rem_u8_i32 "rem" u8, u8 => i32;
    rem_u8_i32_i32 "rem" u8, i32 => i32;
    rem_u8_i32_i64 "rem" u8, i32 => i64;
    rem_u8_i64 "rem" u8, u8 => i64;
    rem_u8_i8_i16 "rem" u8, i8 => i16;
    rem_u8_i8_i32 "rem" u8, i8 => i32;
    rem_u8_i8_i64 "rem" u8, i8 => i64;
    rem_u8_u16 "rem" u8, u8 => u16;
    rem_u8_u16_i32 "rem" u8, u16 => i32;
    rem_u8_u16_i64 "rem" u8, u16 => i64;
    rem_u8_u16_u16 "rem" u8, u16 => u16;
    rem_u8_u16_u32 "rem" u8, u16 => u32;
    rem_u8_u16_u64 "rem" u8, u16 => u64;
    rem_u8_u32 "rem" u8, u8 => u32;
    rem_u8_u32_i64 "rem" u8, u32 => i64;
    rem_u8_u32_u32 "rem" u8, u32 => u32;
    rem_u8_u32_u64 "rem" u8, u32 => u64;
    rem_u8_u64 "rem" u8, u8 => u64;
    sub_i16 "sub" i16, i16 => i16;
    sub_i16_i32 "sub" i16, i16 => i32;
    sub_i16_i32_i32 "sub" i16, i32 => i32;
    sub_i16_i32_i64 "sub" i16, i32 => i64;
    sub_i16_i64 "sub" i16, i16 => i64;
    sub_i16_i8_i16 "sub" i16, i8 => i16;
    sub_i16_i8_i32 "sub" i16, i8 => i32;
    sub_i16_i8_i64 "sub" i16, i8 => i64;
    sub_i16_u16_i32 "sub" i16, u16 => i32;
    sub_i16_u16_i64 "sub" i16, u16 => i64;
    sub_i16_u32_i64 "sub" i16, u32 => i64;
    sub_i16_u8_i16 "sub" i16, u8 => i16;
    sub_i16_u8_i32 "sub" i16, u8 => i32;
    sub_i16_u8_i64 "sub" i16, u8 => i64;
    sub_i32 "sub" i32, i32 => i32;
    sub_i32_i16_i32 "sub" i32, i16 => i32;
    sub_i32_i16_i64 "sub" i32, i16 => i64;
    sub_i32_i64 "sub" i32, i32 => i64;
    sub_i32_i8_i32 "sub" i32, i8 => i32;
    sub_i32_i8_i64 "sub" i32, i8 => i64;
    sub_i32_u16_i32 "sub" i32, u16 => i32;
    sub_i32_u16_i64 "sub" i32, u16 => i64;
    sub_i32_u32_i64 "sub" i32, u32 => i64;
    sub_i32_u8_i32 "sub" i32, u8 => i32;
    sub_i32_u8_i64 "sub" i32, u8 => i64;
    sub_i64 "sub" i64, i64 => i64;
    sub_i8 "sub" i8, i8 => i8;
    sub_i8_i16 "sub" i8, i8 => i16;
    sub_i8_i16_i16 "sub" i8, i16 => i16;
    sub_i8_i16_i32 "sub" i8, i16 => i32;
    sub_i8_i16_i64 "sub" i8, i16 => i64;
    sub_i8_i32 "sub" i8, i8 => i32;
    sub_i8_i32_i32 "sub" i8, i32 => i32;
    sub_i8_i32_i64 "sub" i8, i32 => i64;
    sub_i8_i64 "sub" i8, i8 => i64;
    sub_i8_u16_i32 "sub" i8, u16 => i32;
    sub_i8_u16_i64 "sub" i8, u16 => i64;
    sub_i8_u32_i64 "sub" i8, u32 => i64;
    sub_i8_u8_i16 "sub" i8, u8 => i16;
    sub_i8_u8_i32 "sub" i8, u8 => i32;
    sub_i8_u8_i64 "sub" i8, u8 => i64;
    sub_u16 "sub" u16, u16 => u16;
    sub_u16_i16_i32 "sub" u16, i16 => i32;
    sub_u16_i16_i64 "sub" u16, i16 => i64;
    sub_u16_i32 "sub" u16, u16 => i32;
    sub_u16_i32_i32 "sub" u16, i32 => i32;
    sub_u16_i32_i64 "sub" u16, i32 => i64;
    sub_u16_i64 "sub" u16, u16 => i64;
    sub_u16_i8_i32 "sub" u16, i8 => i32;
    sub_u16_i8_i64 "sub" u16, i8 => i64;
    sub_u16_u32 "sub" u16, u16 => u32;
    sub_u16_u32_i64 "sub" u16, u32 => i64;
    sub_u16_u32_u32 "sub" u16, u32 => u32;
    sub_u16_u32_u64 "sub" u16, u32 => u64;
    sub_u16_u64 "sub" u16, u16 => u64;
    sub_u16_u8_i32 "sub" u16, u8 => i32;
    sub_u16_u8_i64 "sub" u16, u8 => i64;
    sub_u16_u8_u16 "sub" u16, u8 => u16;
    sub_u16_u8_u32 "sub" u16, u8 => u32;
    sub_u16_u8_u64 "sub" u16, u8 => u64;
    sub_u32 "sub" u32, u32 => u32;
    sub_u32_i16_i64 "sub" u32, i16 => i64;
    sub_u32_i32_i64 "sub" u32, i32 => i64;
    sub_u32_i64 "sub" u32, u32 => i64;
    sub_u32_i8_i64 "sub" u32, i8 => i64;
    sub_u32_u16_i64 "sub" u32, u16 => i64;
    sub_u32_u16_u32 "sub" u32, u16 => u32;
    sub_u32_u16_u64 "sub" u32, u16 => u64;
    sub_u32_u64 "sub" u32, u32 => u64;
    sub_u32_u8_i64 "sub" u32, u8 => i64;
    sub_u32_u8_u32 "sub" u32, u8 => u32;
    sub_u32_u8_u64 "sub" u32, u8 => u64;
    sub_u64 "sub" u64, u64 => u64;
    sub_u8 "sub" u8, u8 => u8;
    sub_u8_i16 "sub" u8, u8 => i16;
    sub_u8_i16_i16 "sub" u8, i16 => i16;
    sub_u8_i16_i32 "sub" u8, i16 => i32;
    sub_u8_i16_i64 "sub" u8, i16 => i64;
    sub_u8_i32 "sub" u8, u8 => i32;
    sub_u8_i32_i32 "sub" u8, i32 => i32;
    sub_u8_i32_i64 "sub" u8, i32 => i64;
    sub_u8_i64 "sub" u8, u8 => i64;
    sub_u8_i8_i16 "sub" u8, i8 => i16;
    sub_u8_i8_i32 "sub" u8, i8 => i32;
    sub_u8_i8_i64 "sub" u8, i8 => i64;
    sub_u8_u16 "sub" u8, u8 => u16;
    sub_u8_u16_i32 "sub" u8, u16 => i32;
    sub_u8_u16_i64 "sub" u8, u16 => i64;
    sub_u8_u16_u16 "sub" u8, u16 => u16;
    sub_u8_u16_u32 "sub" u8, u16 => u32;
    sub_u8_u16_u64 "sub" u8, u16 => u64;
    sub_u8_u32 "sub" u8, u8 => u32;
    sub_u8_u32_i64 "sub" u8, u32 => i64;
    sub_u8_u32_u32 "sub" u8, u32 => u32;
    sub_u8_u32_u64 "sub" u8, u32 => u64;
    sub_u8_u64 "sub" u8, u8 => u64;
}
unary! {
    abs_i16 "abs" i16 => i16;
    abs_i16_i32 "abs" i16 => i32;
    abs_i16_i64 "abs" i16 => i64;
    abs_i16_u16 "abs" i16 => u16;
    abs_i16_u32 "abs" i16 => u32;
    abs_i16_u64 "abs" i16 => u64;
    abs_i32 "abs" i32 => i32;
    abs_i32_i64 "abs" i32 => i64;
    abs_i32_u32 "abs" i32 => u32;
    abs_i32_u64 "abs" i32 => u64;
    abs_i64 "abs" i64 => i64;
    abs_i64_u64 "abs" i64 => u64;
    abs_i8 "abs" i8 => i8;
    abs_i8_i16 "abs" i8 => i16;
    abs_i8_i32 "abs" i8 => i32;
    abs_i8_i64 "abs" i8 => i64;
    abs_i8_u16 "abs" i8 => u16;
    abs_i8_u32 "abs" i8 => u32;
    abs_i8_u64 "abs" i8 => u64;
    abs_i8_u8 "abs" i8 => u8;
    abs_u16 "abs" u16 => u16;
    abs_u16_i32 "abs" u16 => i32;
    abs_u16_i64 "abs" u16 => i64;
    abs_u16_u32 "abs" u16 => u32;
    abs_u16_u64 "abs" u16 => u64;
    abs_u32 "abs" u32 => u32;
    abs_u32_i64 "abs" u32 => i64;
    abs_u32_u64 "abs" u32 => u64;
    abs_u64 "abs" u64 => u64;
    abs_u8 "abs" u8 => u8;
    abs_u8_i16 "abs" u8 => i16;
    abs_u8_i32 "abs" u8 => i32;
    abs_u8_i64 "abs" u8 => i64;
    abs_u8_u16 "abs" u8 => u16;
    abs_u8_u32 "abs" u8 => u32;
    abs_u8_u64 "abs" u8 => u64;
    cast_i16_i32 "cast" i16 => i32;
    cast_i16_i64 "cast" i16 => i64;
    cast_i16_i8 "cast" i16 => i8;
    cast_i16_u16 "cast" i16 => u16;
    cast_i16_u32 "cast" i16 => u32;
    cast_i16_u64 "cast" i16 => u64;
    cast_i16_u8 "cast" i16 => u8;
    cast_i32_i16 "cast" i32 => i16;
    cast_i32_i64 "cast" i32 => i64;
    cast_i32_i8 "cast" i32 => i8;
    cast_i32_u16 "cast" i32 => u16;
    cast_i32_u32 "cast" i32 => u32;
    cast_i32_u64 "cast" i32 => u64;
    cast_i32_u8 "cast" i32 => u8;
    cast_i64_i16 "cast" i64 => i16;
    cast_i64_i32 "cast" i64 => i32;
    cast_i64_i8 "cast" i64 => i8;
    cast_i64_u16 "cast" i64 => u16;
    cast_i64_u32 "cast" i64 => u32;
    cast_i64_u64 "cast" i64 => u64;
    cast_i64_u8 "cast" i64 => u8;
    cast_i8_i16 "cast" i8 => i16;
    cast_i8_i32 "cast" i8 => i32;
    cast_i8_i64 "cast" i8 => i64;
    cast_i8_u16 "cast" i8 => u16;
    cast_i8_u32 "cast" i8 => u32;
    cast_i8_u64 "cast" i8 => u64;
    cast_i8_u8 "cast" i8 => u8;
    cast_u16_i16 "cast" u16 => i16;
    cast_u16_i32 "cast" u16 => i32;
    cast_u16_i64 "cast" u16 => i64;
    cast_u16_i8 "cast" u16 => i8;
    cast_u16_u32 "cast" u16 => u32;
    cast_u16_u64 "cast" u16 => u64;
    cast_u16_u8 "cast" u16 => u8;
    cast_u32_i16 "cast" u32 => i16;
    cast_u32_i32 "cast" u32 => i32;
    cast_u32_i64 "cast" u32 => i64;
    cast_u32_i8 "cast" u32 => i8;
    cast_u32_u16 "cast" u32 => u16;
    cast_u32_u64 "cast" u32 => u64;
    cast_u32_u8 "cast" u32 => u8;
    cast_u64_i16 "cast" u64 => i16;
    cast_u64_i32 "cast" u64 => i32;
    cast_u64_i64 "cast" u64 => i64;
    cast_u64_i8 "cast" u64 => i8;
    cast_u64_u16 "cast" u64 => u16;
    cast_u64_u32 "cast" u64 => u32;
    cast_u64_u8 "cast" u64 => u8;
    cast_u8_i16 "cast" u8 => i16;
    cast_u8_i32 "cast" u8 => i32;
    cast_u8_i64 "cast" u8 => i64;
    cast_u8_i8 "cast" u8 => i8;
    cast_u8_u16 "cast" u8 => u16;
    cast_u8_u32 "cast" u8 => u32;
    cast_u8_u64 "cast" u8 => u64;
    neg_i16 "neg" i16 => i16;
    neg_i16_i32 "neg" i16 => i32;
    neg_i16_i64 "neg" i16 => i64;
    neg_i16_u16 "neg" i16 => u16;
    neg_i16_u32 "neg" i16 => u32;
    neg_i16_u64 "neg" i16 => u64;
    neg_i32 "neg" i32 => i32;
    neg_i32_i64 "neg" i32 => i64;
    neg_i32_u32 "neg" i32 => u32;
    neg_i32_u64 "neg" i32 => u64;
    neg_i64 "neg" i64 => i64;
    neg_i64_u64 "neg" i64 => u64;
    neg_i8 "neg" i8 => i8;
    neg_i8_i16 "neg" i8 => i16;
    neg_i8_i32 "neg" i8 => i32;
    neg_i8_i64 "neg" i8 => i64;
    neg_i8_u16 "neg" i8 => u16;
    neg_i8_u32 "neg" i8 => u32;
    neg_i8_u64 "neg" i8 => u64;
    neg_i8_u8 "neg" i8 => u8;
    neg_u16 "neg" u16 => u16;
    neg_u16_i32 "neg" u16 => i32;
    neg_u16_i64 "neg" u16 => i64;
    neg_u16_u32 "neg" u16 => u32;
    neg_u16_u64 "neg" u16 => u64;
    neg_u16_u8 "neg" u16 => u8;
    neg_u32 "neg" u32 => u32;
    neg_u32_i64 "neg" u32 => i64;
    neg_u32_u16 "neg" u32 => u16;
    neg_u32_u64 "neg" u32 => u64;
    neg_u32_u8 "neg" u32 => u8;
    neg_u64 "neg" u64 => u64;
    neg_u64_u16 "neg" u64 => u16;
    neg_u64_u32 "neg" u64 => u32;
    neg_u64_u8 "neg" u64 => u8;
    neg_u8 "neg" u8 => u8;
    neg_u8_i16 "neg" u8 => i16;
    neg_u8_i32 "neg" u8 => i32;
    neg_u8_i64 "neg" u8 => i64;
    neg_u8_u16 "neg" u8 => u16;
    neg_u8_u32 "neg" u8 => u32;
    neg_u8_u64 "neg" u8 => u64;
}
}
