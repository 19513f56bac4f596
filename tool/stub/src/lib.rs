//! Instances of the generic parts of tinywasm's interface, so that their code can be analysed with concrete types.
use tinywasm::*;

pub fn func(i: &ModuleInstance, s: &Store, n: &str) -> Result<FunctionTyped<(i32, i64), f64>> {
    i.func::<(i32, i64), f64>(s, n)
}
pub fn func_by_index(i: &ModuleInstance, s: &Store, n: u32) -> Result<FunctionTyped<(i32, i64), f64>> {
    i.func_typed_by_index::<(i32, i64), f64>(s, n)
}
pub fn call(f: &FunctionTyped<(i32, i64), f64>, s: &mut Store, p: (i32, i64)) -> Result<f64> {
    f.call(s, p)
}
pub fn call_resumable<'a>(f: &FunctionTyped<(i32, i64), f64>, s: &'a mut Store, p: (i32, i64)) -> Result<FuncExecutionTyped<'a, f64>> {
    f.call_resumable(s, p)
}
pub fn resume_fuel(e: &mut FuncExecutionTyped<'_, f64>, n: u32) -> Result<ExecProgress<f64>> {
    e.resume_with_fuel(n)
}
pub fn resume_time(e: &mut FuncExecutionTyped<'_, f64>, n: core::time::Duration) -> Result<ExecProgress<f64>> {
    e.resume_with_time_budget(n)
}
pub fn nested(c: &mut FuncContext<'_>, f: &FunctionTyped<(i32, i64), f64>, p: (i32, i64)) -> Result<f64> {
    c.call(f, p)
}
pub fn host_typed(s: &mut Store, f: fn(FuncContext<'_>, (i32, i64)) -> Result<(f32, f64)>) -> Function {
    HostFunction::from(s, f)
}
pub fn host_untyped(s: &mut Store, t: &tinywasm::types::FuncType, f: fn(FuncContext<'_>, &[tinywasm::types::WasmValue]) -> Result<Vec<tinywasm::types::WasmValue>>) -> Function {
    HostFunction::from_untyped(s, t, f)
}
pub fn exports(i: &ModuleInstance) -> usize {
    i.exports().count()
}
pub type Tuple = (i32, f64, tinywasm::types::FuncRef, i64, f32, tinywasm::types::ExternRef);
pub type Chain = WasmTupleChain<(i32, f64), (i64, f32)>;
pub fn func_tuple(i: &ModuleInstance, s: &Store, n: &str) -> Result<FunctionTyped<Tuple, Chain>> {
    i.func::<Tuple, Chain>(s, n)
}
pub fn func_chain(i: &ModuleInstance, s: &Store, n: &str) -> Result<FunctionTyped<Chain, Tuple>> {
    i.func::<Chain, Tuple>(s, n)
}
pub fn call_tuple(f: &FunctionTyped<Tuple, Chain>, s: &mut Store, p: Tuple) -> Result<Chain> {
    f.call(s, p)
}
pub fn call_chain(f: &FunctionTyped<Chain, Tuple>, s: &mut Store, p: Chain) -> Result<Tuple> {
    f.call(s, p)
}
pub fn host_chain(s: &mut Store, f: fn(FuncContext<'_>, Chain) -> Result<Tuple>) -> Function {
    HostFunction::from(s, f)
}
pub fn host_tuple(s: &mut Store, f: fn(FuncContext<'_>, Tuple) -> Result<Chain>) -> Function {
    HostFunction::from(s, f)
}
