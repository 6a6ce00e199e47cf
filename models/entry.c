void sx_glib_init(void);
extern void harness(void);
void sx_main(void) { sx_glib_init(); harness(); }
