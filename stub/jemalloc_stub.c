#include <stdlib.h>
void _rjem_aligned_alloc(void){abort();}
void _rjem_calloc(void){abort();}
void _rjem_dallocx(void){abort();}
void _rjem_free(void){abort();}
void _rjem_mallctl(void){abort();}
void _rjem_mallctlbymib(void){abort();}
void _rjem_mallctlnametomib(void){abort();}
void _rjem_malloc(void){abort();}
void _rjem_malloc_conf(void){abort();}
void _rjem_malloc_message(void){abort();}
void _rjem_malloc_stats_print(void){abort();}
void _rjem_malloc_usable_size(void){abort();}
void _rjem_mallocx(void){abort();}
void _rjem_nallocx(void){abort();}
void _rjem_posix_memalign(void){abort();}
void _rjem_rallocx(void){abort();}
void _rjem_realloc(void){abort();}
void _rjem_sallocx(void){abort();}
void _rjem_sdallocx(void){abort();}
void _rjem_xallocx(void){abort();}
