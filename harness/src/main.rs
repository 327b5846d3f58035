fn main() {
    if std::env::args().nth(1).as_deref() == Some("digest") {
        vlib::checks::jobs::digest_of_input()
    }
    vlib::runner::main(vlib::checks::props(), vlib::checks::new_env)
}
