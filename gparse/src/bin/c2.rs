include!(concat!(env!("VH_GEN"), "/c2.rs"));
fn main() {
    rt::main_with(table());
}
