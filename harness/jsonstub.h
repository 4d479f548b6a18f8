/* json-c is not the code under test: a brush without JSON needs only an (empty) object */
struct json_object;
struct json_object *json_object_new_object(void) { return NULL; }
int json_object_put(struct json_object *o) { return 1; }
