#ifndef ARIADNE_CONFIG_HPP
#define ARIADNE_CONFIG_HPP
#define SIZEOF_CHAR 1
#define SIZEOF_SHORT_INT 2
#define SIZEOF_INT 4
#define SIZEOF_LONG_INT 8
#define SIZEOF_LONG_LONG_INT 8
#define SIZEOF_FLOAT 4
#define SIZEOF_DOUBLE 8
#define HAVE_CAIRO_H
#define HAVE_GNUPLOT_H
#endif
