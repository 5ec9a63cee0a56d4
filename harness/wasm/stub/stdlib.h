#pragma once
typedef __SIZE_TYPE__ size_t;
#define NULL ((void *)0)
void *malloc(size_t);
void free(void *);
void *calloc(size_t, size_t);
void *realloc(void *, size_t);
