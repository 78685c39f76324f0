#ifdef __cplusplus
extern "C" {
#endif
long vh20_served(void);
long vh20_active(void);
long vh20_leftover(char* which, long n);
#ifdef __cplusplus
}
#endif
