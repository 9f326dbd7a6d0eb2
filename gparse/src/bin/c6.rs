include!(concat!(env!("VH_GEN"), "/c6.rs"));
fn main() {
    rt::main_with(table());
}
