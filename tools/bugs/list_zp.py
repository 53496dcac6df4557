# Planted bugs in the handling of codec parameters.
TRY = '''
static void *try_(const char *par) {
  char *s = (char *)malloc(strlen(par) + 8);
  void *c = NULL;
  int i, rc;
  strcpy(s, par);
  for (i = 0; s[i]; i++) if (s[i] == ' ') s[i] = '\\1';
  rc = cdc_init(s, &c);
  free(s);
  return rc ? NULL : c;
}
'''
MLEN = "         dd->dc.node_table_len = strlen(token);"
cbug("P02-mask-length-once", "P02", "polar", [(PM, MLEN, "         if (dd->dc.node_table_len == 0) dd->dc.node_table_len = strlen(token);")],
     "info_bits_mask given twice with different lengths", "the mask's length is that of the first one: a usable mask is refused or text behind it is read", TRY + '''
int main() {
  void *a = try_("info_bits_mask 11 list_size 2 c_m 3 info_bits_mask 00010111");
  if (!a) FAIL("refused");
  return 0;
}
''')
cbug("P02-dimension-of-mask", "P02", "polar", [(PM, "get_k_from_node_table(c_n, dd->dc.node_table)", "get_k_from_node_table(dd->dc.node_table_len, dd->dc.node_table)")],
     "info_bits_mask longer than the code", "the dimension counts positions that do not exist", TRY + '''
int main() {
  void *a = try_("c_m 3 info_bits_mask 0001011111 list_size 2");
  if (a && cdc_get_k(a) != 4) FAIL("dimension %d instead of 4", cdc_get_k(a));
  return 0;
}
''')
cbug("P02-crc-31", "P02", "polar", [(PM, "         dd->crc_len = strlen(token);", "         dd->crc_len = strlen(token) & 31;")],
     "a CRC of 32 or more bits", "a CRC of 32 bits is taken for none", TRY + '''
int main() {
  char b[400];
  void *a;
  int i;
  strcpy(b, "c_m 6 list_size 2 info_bits_mask ");
  for (i = 0; i < 64; i++) strcat(b, "1");
  strcat(b, " ca_polar_crc 00000100110000010001110110110111");
  a = try_(b);
  if (!a || cdc_get_k(a) != 32) FAIL("wrong dimension");
  return 0;
}
''')
cbug("P02-no-mask-no-list", "P02", "glp", [(GM, "   if (dd->dc.node_table_len == 0) {", "   if ((dd->dc.node_table_len == 0) && (dd->dc.peak_lsiz == 0)) {"), (GM, "   if (dd->dc.node_table_len < get_border_nodes_num(c_m, c_r)) {", "   if ((dd->dc.node_table_len > 0) && (dd->dc.node_table_len < get_border_nodes_num(c_m, c_r))) {")],
     "no border_node_mask in the file", "the decoder starts without a mask and crashes", TRY + '''
int main() {
  if (try_("RM_m 5 RM_r 2 border_node_lsize 4")) FAIL("accepted without a mask");
  return 0;
}
''')
cbug("C04-permutations-count", "C04", "glp", [(GM, "               p_num++;\n", "               if (p_num < 8) p_num++;\n"), (GM, "   if (p_info_len != p_num * c_m) {", "   if (p_info_len < p_num * c_m) {")],
     "more than eight permutations", "permutations after the eighth are ignored silently", HASHM + '''
int main() { return hashtest("RM_m 4 RM_r 2 border_node_mask 111111 border_node_lsize 2 permutations { 0 1 2 3 1 0 2 3 2 1 0 3 3 1 2 0 0 2 1 3 0 3 2 1 0 1 3 2 1 2 0 3 3 2 1 0 2 0 3 1 }", 20000, 1.0); }
''')
