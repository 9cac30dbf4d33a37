// Runs a program, captures its output, controls its faults (limits of file sizes, closed or full outputs).
#ifndef PROC_HPP
#define PROC_HPP
#include "mc.hpp"
#include <fcntl.h>
#include <poll.h>
#include <dirent.h>
namespace proc {
struct Opt
{
	std::string cwd;
	std::string outpath;		// stdout to this file instead of a pipe
	bool outclosed = false;		// stdout is a pipe nobody reads
	bool noout = false;		// file descriptor 1 is not open
	long fsize = -1;		// limit of the size of files written (bytes), SIGXFSZ ignored
	std::vector<std::string> env;
};
struct Res {int status = -1; int sig = 0; std::string out, err;};
inline Res run( const std::vector<std::string>& argv, const Opt& o)
{
	Res r; int po[2], pe[2];
	if (pipe2( po, O_CLOEXEC) || pipe2( pe, O_CLOEXEC)) throw std::runtime_error( "pipe failed");
	std::vector<char*> av; for (auto const& a : argv) av.push_back( (char*)a.c_str()); av.push_back( nullptr);
	pid_t ppid = getpid();
	pid_t pid = fork();
	if (pid < 0) throw std::runtime_error( "fork failed");
	if (pid == 0)
	{
		prctl( PR_SET_PDEATHSIG, SIGKILL); if (getppid() != ppid) _exit( 125);
		int in = open( "/dev/null", O_RDONLY); dup2( in, 0); if (in > 2) close( in);
		if (!o.cwd.empty() && chdir( o.cwd.c_str())) _exit( 125);
		for (auto const& e : o.env) putenv( (char*)e.c_str());
		if (o.noout) close( 1);
		else if (!o.outpath.empty()) {int fd = open( o.outpath.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0644); if (fd < 0) _exit( 125); dup2( fd, 1); close( fd);}
		else dup2( po[1], 1);
		if (o.outclosed) close( po[0]);
		dup2( pe[1], 2);
		if (o.fsize >= 0) {signal( SIGXFSZ, SIG_IGN); struct rlimit rl = {(rlim_t)o.fsize, (rlim_t)o.fsize}; if (setrlimit( RLIMIT_FSIZE, &rl)) _exit( 125);}
		execv( av[0], av.data());
		_exit( 126);
	}
	close( po[1]); close( pe[1]);
	if (o.outclosed) {close( po[0]); po[0] = -1;}
	struct pollfd pf[2] = {{po[0], POLLIN, 0}, {pe[0], POLLIN, 0}};
	int open_ = po[0] >= 0 ? 2 : 1;
	char buf[ 65536];
	while (open_ > 0)
	{
		if (poll( pf, 2, -1) < 0) {if (errno == EINTR) continue; break;}
		for (int i=0; i<2; ++i) if (pf[i].fd >= 0 && pf[i].revents)
		{
			ssize_t n = read( pf[i].fd, buf, sizeof buf);
			if (n <= 0) {pf[i].fd = -1; --open_;} else (i ? r.err : r.out).append( buf, n);
		}
	}
	if (po[0] >= 0) close( po[0]);
	close( pe[0]);
	int st; while (waitpid( pid, &st, 0) < 0 && errno == EINTR){}
	if (WIFEXITED( st)) r.status = WEXITSTATUS( st); else {r.sig = WTERMSIG( st); r.status = 128 + r.sig;}
	if (r.status == 125 || r.status == 126) throw std::runtime_error( "cannot run " + argv[0]);
	return r;
}
inline std::string rd( const std::string& fn)
{
	std::string rt; int fd = open( fn.c_str(), O_RDONLY|O_CLOEXEC); if (fd < 0) return "<none>";
	char buf[ 65536]; ssize_t n; while ((n = read( fd, buf, sizeof buf)) > 0) rt.append( buf, n);
	close( fd); return rt;
}
inline void wr( const std::string& fn, const std::string& s)
{
	int fd = open( fn.c_str(), O_WRONLY|O_CREAT|O_TRUNC|O_CLOEXEC, 0644);
	if (fd < 0 || write( fd, s.data(), s.size()) != (ssize_t)s.size()) throw std::runtime_error( "cannot write " + fn);
	close( fd);
}
inline std::set<std::string> ls( const std::string& d)
{
	std::set<std::string> rt; DIR* dd = opendir( d.c_str()); if (!dd) return rt;
	while (struct dirent* e = readdir( dd)) {std::string n = e->d_name; if (n != "." && n != "..") rt.insert( n);}
	closedir( dd); return rt;
}
inline std::string env( const char* k) {const char* v = getenv( k); if (!v) throw std::runtime_error( std::string( "environment variable missing: ") + k); return v;}
}
#endif
