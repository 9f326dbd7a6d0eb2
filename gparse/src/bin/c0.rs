include!(concat!(env!("VH_GEN"), "/c0.rs"));
fn main() {
    rt::main_with(table());
}
