// The odc executable references its test library only to force linking; the simulator has no use for it.
namespace odc { namespace tool { namespace test { int test_odacapi_setup(int, char**) { return 0; } } } }
