fn main() {
    ikmon::cli(ikmon::props::ALL);
}
