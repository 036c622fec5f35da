int dppir_main(int argc, char** argv);
int main(int argc, char** argv) { return dppir_main(argc, argv); }
