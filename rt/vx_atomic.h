// included before everything else in harnesses with threads: every atomic operation is a place where another thread may go on
#ifdef __cplusplus
extern "C"
#endif
void vx_yield(void);
#define __atomic_fetch_add(...) (vx_yield(), __atomic_fetch_add(__VA_ARGS__))
#define __atomic_fetch_sub(...) (vx_yield(), __atomic_fetch_sub(__VA_ARGS__))
#define __atomic_fetch_or(...) (vx_yield(), __atomic_fetch_or(__VA_ARGS__))
#define __atomic_fetch_and(...) (vx_yield(), __atomic_fetch_and(__VA_ARGS__))
#define __atomic_add_fetch(...) (vx_yield(), __atomic_add_fetch(__VA_ARGS__))
#define __atomic_sub_fetch(...) (vx_yield(), __atomic_sub_fetch(__VA_ARGS__))
#define __atomic_load_n(...) (vx_yield(), __atomic_load_n(__VA_ARGS__))
#define __atomic_load(...) (vx_yield(), __atomic_load(__VA_ARGS__))
#define __atomic_store_n(...) (vx_yield(), __atomic_store_n(__VA_ARGS__))
#define __atomic_store(...) (vx_yield(), __atomic_store(__VA_ARGS__))
#define __atomic_exchange_n(...) (vx_yield(), __atomic_exchange_n(__VA_ARGS__))
#define __atomic_exchange(...) (vx_yield(), __atomic_exchange(__VA_ARGS__))
#define __atomic_compare_exchange_n(...) (vx_yield(), __atomic_compare_exchange_n(__VA_ARGS__))
#define __atomic_compare_exchange(...) (vx_yield(), __atomic_compare_exchange(__VA_ARGS__))
