#include "../contracts/models_thread.cpp"
