#ifndef VF_TMPL_H
#define VF_TMPL_H
#include <onion/types.h>
struct tmpl {
  const char *name;
  void (*fn) (onion_dict *, onion_response *);
  onion_handler *(*handler) (onion_dict *);
  onion_connection_status(*tpl) (onion_dict *, onion_request *, onion_response *);
};
extern const struct tmpl tmpls[];
extern const int tmpl_count;
#endif
