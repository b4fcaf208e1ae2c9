void uuid_generate(unsigned char *out);
