#ifndef VF_PACK_H
#define VF_PACK_H
#include <onion/types.h>
struct packed {
  const char *name;
  onion_connection_status(*fn) (void *_, onion_request *, onion_response *);
  const unsigned int *length;
};
extern const struct packed packs[];
extern const int pack_count;
#endif
