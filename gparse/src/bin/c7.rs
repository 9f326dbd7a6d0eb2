include!(concat!(env!("VH_GEN"), "/c7.rs"));
fn main() {
    rt::main_with(table());
}
