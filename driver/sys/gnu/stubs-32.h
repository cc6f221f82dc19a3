/* empty: lets headers be read for other targets */
