/* The console services of Windows that the programs use; the simulated keyboard answers. */
#ifndef VSIM_CONIO_H
#define VSIM_CONIO_H
#ifdef __cplusplus
extern "C" {
#endif
int _kbhit(void);
int _getch(void);
int kbhit(void);
int getch(void);
#ifdef __cplusplus
}
#endif
#endif
