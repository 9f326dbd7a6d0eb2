include!(concat!(env!("VH_GEN"), "/c3.rs"));
fn main() {
    rt::main_with(table());
}
