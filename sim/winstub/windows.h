/* Stand-in for the few Windows services the programs use. */
#ifndef VSIM_WINDOWS_H
#define VSIM_WINDOWS_H
#include <unistd.h>
#include <stdio.h>
typedef void *HANDLE;
typedef unsigned long DWORD;
typedef int BOOL;
#define TRUE 1
#define FALSE 0
#define IDLE_PRIORITY_CLASS 0x40
#define BELOW_NORMAL_PRIORITY_CLASS 0x4000
#define NORMAL_PRIORITY_CLASS 0x20
#define MOVEFILE_REPLACE_EXISTING 1
static HANDLE GetCurrentProcess(void) { return (HANDLE)-1; }
static BOOL SetPriorityClass(HANDLE h, DWORD c) { (void)h; (void)c; return TRUE; }
static void Sleep(DWORD ms) { usleep(ms * 1000); }
static BOOL DeleteFileA(const char *f) { return remove(f) == 0; }
static BOOL MoveFileExA(const char *a, const char *b, DWORD fl) { if (fl & MOVEFILE_REPLACE_EXISTING) remove(b); return rename(a, b) == 0; }
static BOOL MoveFileA(const char *a, const char *b) { return MoveFileExA(a, b, 0); }
#endif
