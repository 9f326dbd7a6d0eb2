include!(concat!(env!("VH_GEN"), "/c4.rs"));
fn main() {
    rt::main_with(table());
}
