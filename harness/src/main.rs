fn main() {
    vh::all::main()
}
