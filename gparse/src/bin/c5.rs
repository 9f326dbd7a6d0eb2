include!(concat!(env!("VH_GEN"), "/c5.rs"));
fn main() {
    rt::main_with(table());
}
