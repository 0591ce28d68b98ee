// stand-in for the configured header Sockets.cpp includes
#ifndef SOCK_PLAIN_RESOLVER
#define HAVE_GETHOSTBYNAME2_R 1
#endif
