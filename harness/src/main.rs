include!("root.rs");

fn main() {
    main_with(checks::get)
}
