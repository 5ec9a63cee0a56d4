#pragma once
int printf(const char *, ...);
int puts(const char *);
