/* property-specific driver actions */
static int extra_action(char **a, int n) {
	(void)a; (void)n;
	return 0;
}
