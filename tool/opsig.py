"""Operand and result types of the WebAssembly operators (the specification side of the stack-effect rules).
Types: i32 i64 f32 f64 v128 ref; `a` an address of the operator's memory or table; `n` the length of a bulk copy."""
import re

UN = ("abs neg sqrt ceil floor trunc nearest popcnt demote_f64x2_zero promote_low_f32x4 not").split()
UNP = ("extend_low_ extend_high_ extadd_pairwise_ trunc_sat_ convert_ relaxed_trunc_").split()
TRI = ("bitselect relaxed_laneselect relaxed_madd relaxed_nmadd relaxed_dot_i8x16_i7x16_add_s").split()
BIN = ("add sub mul div min max pmin pmax eq ne lt gt le ge lt_s lt_u gt_s gt_u le_s le_u ge_s ge_u min_s min_u max_s max_u "
       "add_sat_s add_sat_u sub_sat_s sub_sat_u avgr_u swizzle relaxed_swizzle shuffle q15mulr_sat_s relaxed_q15mulr_s and andnot or xor "
       "relaxed_min relaxed_max").split()
BINP = ("narrow_ extmul_ dot_ relaxed_dot_i8x16_i7x16_s").split()
LANE = {"i8x16": "i32", "i16x8": "i32", "i32x4": "i32", "i64x2": "i64", "f32x4": "f32", "f64x2": "f64"}


INT1, INT2 = "clz ctz popcnt".split(), "add sub mul div_s div_u rem_s rem_u and or xor shl shr_s shr_u rotl rotr".split()
ICMP, FCMP = "eq ne lt_s lt_u gt_s gt_u le_s le_u ge_s ge_u".split(), "eq ne lt gt le ge".split()
FLT1, FLT2 = "abs neg ceil floor trunc nearest sqrt".split(), "add sub mul div min max copysign".split()


def numeric(n):
    """the signature of a scalar constant or numeric operator"""
    m = re.fullmatch(r"([if](?:32|64))_(\w+)", n)
    if not m:
        return None
    t, o = m.groups()
    if o == "const":
        return [], [t]
    if t[0] == "i":
        if o == "eqz":
            return [t], ["i32"]
        if o in INT1 or re.fullmatch(r"extend(8|16|32)_s", o):
            return [t], [t]
        if o in INT2:
            return [t, t], [t]
        if o in ICMP:
            return [t, t], ["i32"]
    else:
        if o in FLT1:
            return [t], [t]
        if o in FLT2:
            return [t, t], [t]
        if o in FCMP:
            return [t, t], ["i32"]
    m = re.fullmatch(r"(?:trunc|trunc_sat|convert|extend|wrap|demote|promote|reinterpret)_([if](?:32|64))(?:_[su])?", o)
    return ([m.group(1)], [t]) if m else None


def signature(n):
    """(operand types, result types), or None for an operator whose types depend on its context"""
    r = numeric(n)
    if r:
        return r
    m = re.fullmatch(r"([if](?:32|64))_load(8|16|32)?(?:_[su])?", n)
    if m:
        return ["a"], [m.group(1)]
    m = re.fullmatch(r"([if](?:32|64))_store(8|16|32)?", n)
    if m:
        return ["a", m.group(1)], []
    if re.fullmatch(r"v128_load\d+_lane", n):
        return ["a", "v128"], ["v128"]
    if re.fullmatch(r"v128_load.*", n):
        return ["a"], ["v128"]
    if re.fullmatch(r"v128_store\d+_lane|v128_store", n):
        return ["a", "v128"], []
    fixed = {
        "nop": ([], []), "v128_const": ([], ["v128"]), "v128_any_true": (["v128"], ["i32"]),
        "ref_null": ([], ["ref"]), "ref_func": ([], ["ref"]), "ref_is_null": (["ref"], ["i32"]),
        "memory_size": ([], ["a"]), "memory_grow": (["a"], ["a"]), "memory_fill": (["a", "i32", "a"], []),
        "memory_init": (["a", "i32", "i32"], []), "memory_copy": (["a1", "a2", "min"], []),
        "data_drop": ([], []), "elem_drop": ([], []),
        "table_get": (["a"], ["ref"]), "table_set": (["a", "ref"], []), "table_size": ([], ["a"]), "table_grow": (["ref", "a"], ["a"]),
        "table_fill": (["a", "ref", "a"], []), "table_init": (["a", "i32", "i32"], []), "table_copy": (["a1", "a2", "min"], []),
    }
    if n in fixed:
        return fixed[n]
    m = re.fullmatch(r"(i8x16|i16x8|i32x4|i64x2|f32x4|f64x2|v128)_(\w+)", n)
    if m:
        sh, o = m.groups()
        v = ["v128"]
        if o in ("all_true", "bitmask"):
            return v, ["i32"]
        if o in ("shl", "shr_s", "shr_u"):
            return ["v128", "i32"], v
        if o == "splat":
            return [LANE[sh]], v
        if re.fullmatch(r"extract_lane(_[su])?", o):
            return v, [LANE[sh]]
        if o == "replace_lane":
            return ["v128", LANE[sh]], v
        if o in TRI:
            return v * 3, v
        if o in UN or any(o.startswith(p) for p in UNP):
            return v, v
        if o in BIN or any(o.startswith(p) for p in BINP):
            return v * 2, v
    return None


CONTEXTUAL = set("block loop if else end br br_if br_table return unreachable call call_indirect return_call return_call_indirect "
                 "drop select typed_select typed_select_multi local_get local_set local_tee global_get global_set".split())
