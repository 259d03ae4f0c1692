fn main() {
    hv::refr::selftest();
    println!("reference self-test passed");
}
