/* The generated parser was made by ANTLR >= 4.11, whose runtime has
 * antlr4::internal::OnceFlag; the packaged runtime is 4.10. */
#ifdef __cplusplus
#include <mutex>
namespace antlr4 { namespace internal { using OnceFlag = std::once_flag; using std::call_once; } }
#endif
