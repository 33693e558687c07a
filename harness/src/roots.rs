//! One entry point per line: a line that no longer compiles is left out of the analysis.
use crate::{El, ElC, ElP, Src};
use whasm::binary as b;
use whasm::binary::{Result, WasmBinary, WasmBinaryParse, WasmBinaryParseProxy};
use whasm::structure::{idx, instr, module, ty};
use whasm::validation::{self, Context, Validate, ValidationEntry};

macro_rules! parse_roots {
    ($($name:ident: $t:ty;)*) => { $(
        pub fn $name(src: &mut Src) -> Result<$t> {
            <$t as WasmBinaryParse>::parse(src)
        }
    )* }
}

parse_roots! {
    p_byte: b::Byte;
    p_u8: u8;
    p_u16: u16;
    p_u32: u32;
    p_u64: u64;
    p_i8: i8;
    p_i16: i16;
    p_i32: i32;
    p_i64: i64;
    p_f32: f32;
    p_f64: f64;
    p_string: String;
    p_vec: Vec<El>;
    p_compact_vec: b::CompactVec<ElC>;
    p_unwrapping_vec: b::UnwrappingVec<ElP>;
    p_sized: b::Sized<El>;
    p_sized_consume: b::Sized<b::Consume>;
    p_consume: b::Consume;
    p_arr0: [El; 0];
    p_arr1: [El; 1];
    p_arr2: [El; 2];
    p_arr3: [El; 3];
    p_arr4: [El; 4];
    p_arr5: [El; 5];
    p_arr6: [El; 6];
    p_arr7: [El; 7];
    p_arr8: [El; 8];
    p_idx_type: idx::Type;
    p_idx_func: idx::Func;
    p_idx_table: idx::Table;
    p_idx_mem: idx::Mem;
    p_idx_global: idx::Global;
    p_idx_local: idx::Local;
    p_idx_label: idx::Label;
    p_limits: ty::Limits;
    p_val: ty::Val;
    p_elem_ty: ty::Elem;
    p_retval: ty::RetVal;
    p_func_ty: ty::Func;
    p_table_ty: ty::Table;
    p_mem_ty: ty::Mem;
    p_mut: ty::Mut;
    p_global_ty: ty::Global;
    p_expr: instr::Expr;
    p_const_expr: instr::ConstExpr;
    p_instr: instr::Instr;
    p_module: module::Module;
    p_func: module::Func;
    p_table: module::Table;
    p_mem: module::Mem;
    p_global: module::Global;
    p_elem: module::Elem;
    p_data: module::Data;
    p_start: module::Start;
    p_import_desc: module::desc::Import;
    p_export_desc: module::desc::Export;
    p_import: module::Import;
    p_export: module::Export;
}

macro_rules! unwrap_roots {
    ($($name:ident: $t:ty => $u:ty;)*) => { $(
        pub fn $name(x: $t) -> $u {
            x.unwrap()
        }
    )* }
}

unwrap_roots! {
    u_compact_vec: b::CompactVec<ElC> => Vec<ElC>;
    u_unwrapping_vec: b::UnwrappingVec<ElP> => Vec<El>;
    u_sized: b::Sized<El> => El;
    u_byte: b::Byte => u8;
}

/// The public entry through the iterator extension trait.
pub fn entry_parse(src: &mut Src) -> Result<module::Module> { src.parse::<module::Module>() }

macro_rules! validate_roots {
    ($($name:ident: $t:ty;)*) => { $(
        pub fn $name<'a>(x: &'a $t, ctx: &mut Context<'a>) -> validation::Result<<$t as Validate<'a>>::ValidationResult> {
            <$t as Validate<'a>>::validate(x, ctx)
        }
    )* }
}

validate_roots! {
    v_idx_type: idx::Type;
    v_idx_func: idx::Func;
    v_idx_table: idx::Table;
    v_idx_mem: idx::Mem;
    v_idx_global: idx::Global;
    v_idx_local: idx::Local;
    v_idx_label: idx::Label;
    v_limits: ty::Limits;
    v_func_ty: ty::Func;
    v_table_ty: ty::Table;
    v_mem_ty: ty::Mem;
    v_global_ty: ty::Global;
    v_retval: ty::RetVal;
    v_expr: instr::Expr;
    v_const_expr: instr::ConstExpr;
    v_instr: instr::Instr;
    v_module: module::Module;
    v_func: module::Func;
    v_table: module::Table;
    v_mem: module::Mem;
    v_global: module::Global;
    v_elem: module::Elem;
    v_data: module::Data;
    v_start: module::Start;
    v_import_desc: module::desc::Import;
    v_export_desc: module::desc::Export;
    v_import: module::Import;
    v_export: module::Export;
}

pub fn entry_validate<'a>(m: &'a module::Module) -> validation::Result<validation::module::result::Module<'a>> { <module::Module as ValidationEntry<'a>>::validate(m) }
pub fn x_drop_module(m: module::Module) { drop(m) }
pub fn x_debug_module(m: &module::Module, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Debug::fmt(m, f) }
pub fn x_eq_module(a: &module::Module, b: &module::Module) -> bool { a == b }
pub fn x_show_error(e: &b::Error, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(e, f) }
pub fn x_eq_byte(a: &b::Byte, o: &b::Byte) -> bool { a == o }
pub fn x_eq_byte_u8(a: &b::Byte, o: &u8) -> bool { a == o }
pub fn x_eq_byte_char(a: &b::Byte, o: &char) -> bool { a == o }
pub fn x_eq_sized(a: &b::Sized<u32>, o: &b::Sized<u32>) -> bool { a == o }
pub fn x_eq_sized_inner(a: &b::Sized<u32>, o: &u32) -> bool { a == o }
pub fn x_ne_byte(a: &b::Byte, o: &b::Byte) -> bool { a != o }
pub fn x_ne_byte_u8(a: &b::Byte, o: &u8) -> bool { a != o }
pub fn x_ne_byte_char(a: &b::Byte, o: &char) -> bool { a != o }
pub fn x_ne_sized(a: &b::Sized<u32>, o: &b::Sized<u32>) -> bool { a != o }
pub fn x_ne_sized_inner(a: &b::Sized<u32>, o: &u32) -> bool { a != o }
pub fn x_ne_module(a: &module::Module, b: &module::Module) -> bool { a != b }
pub fn x_into_u8(a: b::Byte) -> u8 { a.into() }
pub fn x_into_char(a: b::Byte) -> char { a.into() }
pub fn x_into_inner_byte(a: b::Byte) -> u8 { a.unwrap() }
pub fn x_into_inner_sized(a: b::Sized<u32>) -> u32 { a.unwrap() }
pub fn x_into_inner_vec(a: b::UnwrappingVec<b::Byte>) -> Vec<u8> { a.unwrap() }
pub fn x_into_inner_compact(a: b::CompactVec<u32>) -> Vec<u32> { a.unwrap() }
pub fn x_dsp_byte(x: &b::Byte, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(x, f) }

macro_rules! debug_roots {
    ($($name:ident: $t:ty;)*) => { $(
        pub fn $name(x: &$t, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            <$t as std::fmt::Debug>::fmt(x, f)
        }
    )* }
}

debug_roots! {
    x_dbg_byte: b::Byte;
    x_dbg_sized: b::Sized<u32>;
    x_dbg_module: module::Module;
    x_dbg_func: module::Func;
    x_dbg_table: module::Table;
    x_dbg_mem: module::Mem;
    x_dbg_global: module::Global;
    x_dbg_elem: module::Elem;
    x_dbg_data: module::Data;
    x_dbg_start: module::Start;
    x_dbg_import_desc: module::desc::Import;
    x_dbg_export_desc: module::desc::Export;
    x_dbg_import: module::Import;
    x_dbg_export: module::Export;
    x_dbg_instr: instr::Instr;
    x_dbg_expr: instr::Expr;
    x_dbg_const_expr: instr::ConstExpr;
    x_dbg_retval: ty::RetVal;
    x_dbg_val: ty::Val;
    x_dbg_func_ty: ty::Func;
    x_dbg_limits: ty::Limits;
    x_dbg_elem_ty: ty::Elem;
    x_dbg_table_ty: ty::Table;
    x_dbg_mem_ty: ty::Mem;
    x_dbg_global_ty: ty::Global;
    x_dbg_mut: ty::Mut;
    x_dbg_idx_type: idx::Type;
    x_dbg_idx_func: idx::Func;
    x_dbg_idx_table: idx::Table;
    x_dbg_idx_mem: idx::Mem;
    x_dbg_idx_global: idx::Global;
    x_dbg_idx_local: idx::Local;
    x_dbg_idx_label: idx::Label;
}
