// files in memory, nothing on disk

#pragma once

#include <fcntl.h>
#include <string>
#include <sys/mman.h>
#include <unistd.h>

class MemFile
{
	int fd;
	char name[64];
public:
	MemFile()
	{
		fd = memfd_create("pbt", MFD_ALLOW_SEALING);
		if (fd < 0) {
			perror("memfd_create");
			_exit(4);
		}
		snprintf(name, sizeof(name), "/proc/self/fd/%d", fd);
	}
	MemFile(const MemFile &) = delete;
	MemFile &operator=(const MemFile &) = delete;
	~MemFile() { ::close(fd); }
	const char *path() const { return name; }
	void set(const std::string &bytes)
	{
		if (ftruncate(fd, 0) || pwrite(fd, bytes.data(), bytes.size(), 0) != ssize_t(bytes.size())) {
			perror("write");
			_exit(4);
		}
	}
	// from now on there is no room left
	void fill()
	{
		if (fcntl(fd, F_ADD_SEALS, F_SEAL_GROW)) {
			perror("fcntl");
			_exit(4);
		}
	}
	std::string get() const
	{
		off_t n = lseek(fd, 0, SEEK_END);
		std::string b(n, 0);
		if (pread(fd, &b[0], n, 0) != n) {
			perror("read");
			_exit(4);
		}
		return b;
	}
};

static inline unsigned le(const std::string &b, int at, int n)
{
	unsigned v = 0;
	for (int i = 0; i < n; ++i)
		v |= unsigned((unsigned char)(b[at + i])) << (8 * i);
	return v;
}

static inline void put_le(std::string &b, unsigned v, int n)
{
	for (int i = 0; i < n; ++i)
		b += char(255 & (v >> (8 * i)));
}
