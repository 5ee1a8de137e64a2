//! Reference description of the instruction set's wire format, written from the format and not from the
//! implementation: opcode numbers, operand order and widths, jump-offset biases and accounted sizes.
use redscript::bundle::PoolIndex;
use redscript::bytecode::Instr;

/// Operand kinds: plain little-endian integers, pool references (4 bytes on the wire, 8 accounted),
/// string references (4 accounted), offsets (i16, stored relative to the byte after the operand).
#[derive(Clone, Copy, PartialEq)]
pub enum K {
    B,
    H,
    W,
    Q,
    R,
    S,
    O(u16),
}
use K::*;
pub const BREAKPOINT: u8 = 21;
pub const TARGET: u8 = 23;
pub const PROFILING: u8 = 51;
pub const NUM_OPS: u8 = 104;

/// None for the two instructions whose operands are private (Breakpoint, StartProfiling) and unknown opcodes.
pub fn layout(op: u8) -> Option<&'static [K]> {
    Some(match op {
        0 => &[],
        1 => &[],
        2 => &[],
        3 => &[],
        4 => &[B],
        5 => &[H],
        6 => &[W],
        7 => &[Q],
        8 => &[B],
        9 => &[H],
        10 => &[W],
        11 => &[Q],
        12 => &[W],
        13 => &[Q],
        14 => &[R],
        15 => &[R, R],
        16 => &[S],
        17 => &[R],
        18 => &[R],
        19 => &[],
        20 => &[],
        22 => &[],
        23 => &[],
        24 => &[R],
        25 => &[R],
        26 => &[R],
        27 => &[],
        28 => &[R, O(11)],
        29 => &[O(3), O(5)],
        30 => &[],
        31 => &[O(3)],
        32 => &[O(3)],
        33 => &[O(3)],
        34 => &[O(3), O(5)],
        35 => &[B, R],
        36 => &[O(3), H, R, H],
        37 => &[O(3), H, R, H],
        38 => &[],
        39 => &[],
        40 => &[R],
        41 => &[O(3)],
        42 => &[R],
        43 => &[R],
        44 => &[R],
        45 => &[R],
        46 => &[R],
        47 => &[R],
        48 => &[R],
        49 => &[],
        50 => &[],
        52 => &[R],
        53 => &[R],
        54 => &[R],
        55 => &[R],
        56 => &[R],
        57 => &[R],
        58 => &[R],
        59 => &[R],
        60 => &[R],
        61 => &[R],
        62 => &[R],
        63 => &[R],
        64 => &[R],
        65 => &[R],
        66 => &[R],
        67 => &[R],
        68 => &[R],
        69 => &[R],
        70 => &[R],
        71 => &[R],
        72 => &[R],
        73 => &[R],
        74 => &[R],
        75 => &[R],
        76 => &[R],
        77 => &[R],
        78 => &[R],
        79 => &[R],
        80 => &[R],
        81 => &[R],
        82 => &[R],
        83 => &[R],
        84 => &[R],
        85 => &[R],
        86 => &[],
        87 => &[],
        88 => &[R, B],
        89 => &[R, B],
        90 => &[R, B],
        91 => &[R],
        92 => &[R],
        93 => &[R],
        94 => &[],
        95 => &[],
        96 => &[],
        97 => &[],
        98 => &[],
        99 => &[],
        100 => &[],
        101 => &[],
        102 => &[R],
        103 => &[R],
        _ => return None,
    })
}

pub fn wire_width(k: K) -> usize {
    match k {
        B => 1,
        H => 2,
        W => 4,
        Q => 8,
        R | S => 4,
        O(_) => 2,
    }
}

/// Size an instruction is accounted with (jump offsets are computed in these units).
pub fn ref_size(op: u8) -> u16 {
    match op {
        TARGET => 0,
        BREAKPOINT => 20,
        _ => 1 + layout(op).unwrap().iter().map(|k| if *k == R { 8 } else { wire_width(*k) as u16 }).sum::<u16>(),
    }
}

pub fn wire_len(op: u8) -> usize {
    match op {
        BREAKPOINT => 20,
        _ => 1 + layout(op).unwrap().iter().map(|k| wire_width(*k)).sum::<usize>(),
    }
}

/// Reference encoding: `v[i]` is the i-th operand, `offs` the offsets in order of appearance.
pub fn wire(op: u8, v: &[u64; 4], offs: (i16, i16)) -> Vec<u8> {
    let mut out = vec![op];
    let mut n = 0;
    for (i, k) in layout(op).unwrap().iter().enumerate() {
        let x = match k {
            O(bias) => {
                n += 1;
                (if n == 1 { offs.0 } else { offs.1 } as u16).wrapping_sub(*bias) as u64
            }
            _ => v[i],
        };
        for j in 0..wire_width(*k) {
            out.push((x >> (8 * j)) as u8);
        }
    }
    out
}

fn p<A>(v: u64) -> PoolIndex<A> {
    PoolIndex::new(v as u32)
}

pub fn build<L: Copy>(op: u8, v: &[u64; 4], l: (L, L)) -> Instr<L> {
    match op {
        0 => Instr::Nop,
        1 => Instr::Null,
        2 => Instr::I32One,
        3 => Instr::I32Zero,
        4 => Instr::I8Const(v[0] as i8),
        5 => Instr::I16Const(v[0] as i16),
        6 => Instr::I32Const(v[0] as i32),
        7 => Instr::I64Const(v[0] as i64),
        8 => Instr::U8Const(v[0] as u8),
        9 => Instr::U16Const(v[0] as u16),
        10 => Instr::U32Const(v[0] as u32),
        11 => Instr::U64Const(v[0]),
        12 => Instr::F32Const(f32::from_bits(v[0] as u32)),
        13 => Instr::F64Const(f64::from_bits(v[0])),
        14 => Instr::NameConst(p(v[0])),
        15 => Instr::EnumConst(p(v[0]), p(v[1])),
        16 => Instr::StringConst(p(v[0])),
        17 => Instr::TweakDbIdConst(p(v[0])),
        18 => Instr::ResourceConst(p(v[0])),
        19 => Instr::TrueConst,
        20 => Instr::FalseConst,
        22 => Instr::Assign,
        23 => Instr::Target(l.0),
        24 => Instr::Local(p(v[0])),
        25 => Instr::Param(p(v[0])),
        26 => Instr::ObjectField(p(v[0])),
        27 => Instr::ExternalVar,
        28 => Instr::Switch(p(v[0]), l.0),
        29 => Instr::SwitchLabel(l.0, l.1),
        30 => Instr::SwitchDefault,
        31 => Instr::Jump(l.0),
        32 => Instr::JumpIfFalse(l.0),
        33 => Instr::Skip(l.0),
        34 => Instr::Conditional(l.0, l.1),
        35 => Instr::Construct(v[0] as u8, p(v[1])),
        36 => Instr::InvokeStatic(l.0, v[1] as u16, p(v[2]), v[3] as u16),
        37 => Instr::InvokeVirtual(l.0, v[1] as u16, p(v[2]), v[3] as u16),
        38 => Instr::ParamEnd,
        39 => Instr::Return,
        40 => Instr::StructField(p(v[0])),
        41 => Instr::Context(l.0),
        42 => Instr::Equals(p(v[0])),
        43 => Instr::RefStringEqualsString(p(v[0])),
        44 => Instr::StringEqualsRefString(p(v[0])),
        45 => Instr::NotEquals(p(v[0])),
        46 => Instr::RefStringNotEqualsString(p(v[0])),
        47 => Instr::StringNotEqualsRefString(p(v[0])),
        48 => Instr::New(p(v[0])),
        49 => Instr::Delete,
        50 => Instr::This,
        52 => Instr::ArrayClear(p(v[0])),
        53 => Instr::ArraySize(p(v[0])),
        54 => Instr::ArrayResize(p(v[0])),
        55 => Instr::ArrayFindFirst(p(v[0])),
        56 => Instr::ArrayFindFirstFast(p(v[0])),
        57 => Instr::ArrayFindLast(p(v[0])),
        58 => Instr::ArrayFindLastFast(p(v[0])),
        59 => Instr::ArrayContains(p(v[0])),
        60 => Instr::ArrayContainsFast(p(v[0])),
        61 => Instr::ArrayCount(p(v[0])),
        62 => Instr::ArrayCountFast(p(v[0])),
        63 => Instr::ArrayPush(p(v[0])),
        64 => Instr::ArrayPop(p(v[0])),
        65 => Instr::ArrayInsert(p(v[0])),
        66 => Instr::ArrayRemove(p(v[0])),
        67 => Instr::ArrayRemoveFast(p(v[0])),
        68 => Instr::ArrayGrow(p(v[0])),
        69 => Instr::ArrayErase(p(v[0])),
        70 => Instr::ArrayEraseFast(p(v[0])),
        71 => Instr::ArrayLast(p(v[0])),
        72 => Instr::ArrayElement(p(v[0])),
        73 => Instr::ArraySort(p(v[0])),
        74 => Instr::ArraySortByPredicate(p(v[0])),
        75 => Instr::StaticArraySize(p(v[0])),
        76 => Instr::StaticArrayFindFirst(p(v[0])),
        77 => Instr::StaticArrayFindFirstFast(p(v[0])),
        78 => Instr::StaticArrayFindLast(p(v[0])),
        79 => Instr::StaticArrayFindLastFast(p(v[0])),
        80 => Instr::StaticArrayContains(p(v[0])),
        81 => Instr::StaticArrayContainsFast(p(v[0])),
        82 => Instr::StaticArrayCount(p(v[0])),
        83 => Instr::StaticArrayCountFast(p(v[0])),
        84 => Instr::StaticArrayLast(p(v[0])),
        85 => Instr::StaticArrayElement(p(v[0])),
        86 => Instr::RefToBool,
        87 => Instr::WeakRefToBool,
        88 => Instr::EnumToI32(p(v[0]), v[1] as u8),
        89 => Instr::I32ToEnum(p(v[0]), v[1] as u8),
        90 => Instr::DynamicCast(p(v[0]), v[1] as u8),
        91 => Instr::ToString(p(v[0])),
        92 => Instr::ToVariant(p(v[0])),
        93 => Instr::FromVariant(p(v[0])),
        94 => Instr::VariantIsDefined,
        95 => Instr::VariantIsRef,
        96 => Instr::VariantIsArray,
        97 => Instr::VariantTypeName,
        98 => Instr::VariantToString,
        99 => Instr::WeakRefToRef,
        100 => Instr::RefToWeakRef,
        101 => Instr::WeakRefNull,
        102 => Instr::AsRef(p(v[0])),
        103 => Instr::Deref(p(v[0])),
        _ => unreachable!(),
    }
}

pub fn opcode<L>(i: &Instr<L>) -> u8 {
    #[allow(unreachable_patterns)]
    match i {
        Instr::Nop => 0,
        Instr::Null => 1,
        Instr::I32One => 2,
        Instr::I32Zero => 3,
        Instr::I8Const(..) => 4,
        Instr::I16Const(..) => 5,
        Instr::I32Const(..) => 6,
        Instr::I64Const(..) => 7,
        Instr::U8Const(..) => 8,
        Instr::U16Const(..) => 9,
        Instr::U32Const(..) => 10,
        Instr::U64Const(..) => 11,
        Instr::F32Const(..) => 12,
        Instr::F64Const(..) => 13,
        Instr::NameConst(..) => 14,
        Instr::EnumConst(..) => 15,
        Instr::StringConst(..) => 16,
        Instr::TweakDbIdConst(..) => 17,
        Instr::ResourceConst(..) => 18,
        Instr::TrueConst => 19,
        Instr::FalseConst => 20,
        Instr::Breakpoint(..) => 21,
        Instr::Assign => 22,
        Instr::Target(..) => 23,
        Instr::Local(..) => 24,
        Instr::Param(..) => 25,
        Instr::ObjectField(..) => 26,
        Instr::ExternalVar => 27,
        Instr::Switch(..) => 28,
        Instr::SwitchLabel(..) => 29,
        Instr::SwitchDefault => 30,
        Instr::Jump(..) => 31,
        Instr::JumpIfFalse(..) => 32,
        Instr::Skip(..) => 33,
        Instr::Conditional(..) => 34,
        Instr::Construct(..) => 35,
        Instr::InvokeStatic(..) => 36,
        Instr::InvokeVirtual(..) => 37,
        Instr::ParamEnd => 38,
        Instr::Return => 39,
        Instr::StructField(..) => 40,
        Instr::Context(..) => 41,
        Instr::Equals(..) => 42,
        Instr::RefStringEqualsString(..) => 43,
        Instr::StringEqualsRefString(..) => 44,
        Instr::NotEquals(..) => 45,
        Instr::RefStringNotEqualsString(..) => 46,
        Instr::StringNotEqualsRefString(..) => 47,
        Instr::New(..) => 48,
        Instr::Delete => 49,
        Instr::This => 50,
        Instr::StartProfiling(..) => 51,
        Instr::ArrayClear(..) => 52,
        Instr::ArraySize(..) => 53,
        Instr::ArrayResize(..) => 54,
        Instr::ArrayFindFirst(..) => 55,
        Instr::ArrayFindFirstFast(..) => 56,
        Instr::ArrayFindLast(..) => 57,
        Instr::ArrayFindLastFast(..) => 58,
        Instr::ArrayContains(..) => 59,
        Instr::ArrayContainsFast(..) => 60,
        Instr::ArrayCount(..) => 61,
        Instr::ArrayCountFast(..) => 62,
        Instr::ArrayPush(..) => 63,
        Instr::ArrayPop(..) => 64,
        Instr::ArrayInsert(..) => 65,
        Instr::ArrayRemove(..) => 66,
        Instr::ArrayRemoveFast(..) => 67,
        Instr::ArrayGrow(..) => 68,
        Instr::ArrayErase(..) => 69,
        Instr::ArrayEraseFast(..) => 70,
        Instr::ArrayLast(..) => 71,
        Instr::ArrayElement(..) => 72,
        Instr::ArraySort(..) => 73,
        Instr::ArraySortByPredicate(..) => 74,
        Instr::StaticArraySize(..) => 75,
        Instr::StaticArrayFindFirst(..) => 76,
        Instr::StaticArrayFindFirstFast(..) => 77,
        Instr::StaticArrayFindLast(..) => 78,
        Instr::StaticArrayFindLastFast(..) => 79,
        Instr::StaticArrayContains(..) => 80,
        Instr::StaticArrayContainsFast(..) => 81,
        Instr::StaticArrayCount(..) => 82,
        Instr::StaticArrayCountFast(..) => 83,
        Instr::StaticArrayLast(..) => 84,
        Instr::StaticArrayElement(..) => 85,
        Instr::RefToBool => 86,
        Instr::WeakRefToBool => 87,
        Instr::EnumToI32(..) => 88,
        Instr::I32ToEnum(..) => 89,
        Instr::DynamicCast(..) => 90,
        Instr::ToString(..) => 91,
        Instr::ToVariant(..) => 92,
        Instr::FromVariant(..) => 93,
        Instr::VariantIsDefined => 94,
        Instr::VariantIsRef => 95,
        Instr::VariantIsArray => 96,
        Instr::VariantTypeName => 97,
        Instr::VariantToString => 98,
        Instr::WeakRefToRef => 99,
        Instr::RefToWeakRef => 100,
        Instr::WeakRefNull => 101,
        Instr::AsRef(..) => 102,
        Instr::Deref(..) => 103,
        _ => 255,
    }
}
