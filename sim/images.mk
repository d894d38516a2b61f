# images a property's check needs (default: plain4 plain6)
IMGS_M02 := pool
IMGS_D01 := dtls4
IMGS_D02 := dtls4
IMGS_X01 := dtls4 proxy http
IMGS_X02 := dtls4 proxy http
IMGS_X03 := dtls4 proxy http
IMGS_X04 := dtls4 proxy http
IMGS_A01 := app4 app6
IMGS_A02 := app4 app6
IMGS_A03 := app4 app6
