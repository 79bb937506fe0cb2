#pragma once
#define ENOMEM 12
#define EINVAL 22
#define EIO 5
#define ENOENT 2
extern int errno;
