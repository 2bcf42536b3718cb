#if !defined( SIM_LEGACY_ERR_H )
#define SIM_LEGACY_ERR_H
void ERR_remove_thread_state( const void *tid );
#endif
