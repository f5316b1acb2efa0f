fn main() {
    // Export our getrandom/syscall so that std's weak lookups find them.
    println!("cargo:rustc-link-arg-bins=-rdynamic");
}
