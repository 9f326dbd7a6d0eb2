include!(concat!(env!("VH_GEN"), "/c1.rs"));
fn main() {
    rt::main_with(table());
}
