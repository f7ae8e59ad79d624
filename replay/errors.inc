{-99,"The QUIT command return an error"},
{-98,"The End data command timed out"},
{-97,"The End data command return an error"},
{-96,"The Body command return an error"},
{-95,"The Body part return an error"},
{-94,"The Content type header command return an error"},
{-93,"The Subject header command return an error"},
{-92,"The To and CC header command return an error"},
{-91,"The From header command return an error"},
{-90,"The DATA command timed out"},
{-89,"The DATA command return an error"},
{-88,"The RCPT TO command timed out"},
{-87,"The RCPT TO command return an error"},
{-86,"The MAIL FROM command timed out"},
{-85,"The MAIL FROM command return an error"},
{-84,"The authentication method selected is not supported by the server"},
{-83,"The authentication is not needed on the server"},
{-82,"The authentication to the server has timed out"},
{-81,"Unable to authenticate with the credentials provided"},
{-60,"The EHLO command via the secure channel timed out"},
{-59,"Unable to EHLO the server via the secure channel"},
{-58,"Unable to verify the result of chain verification"},
{-57,"Unable to get peer certificate"},
{-56,"Unable to handshake with SSL BIO"},
{-55,"Unable to connect SSL BIO"},
{-54,"Unable to open the specifies that the default locations from which CA certificates are loaded"},
{-53,"Unable to open the Windows Certificate System Store"},
{-52,"Unable to create the SSL BIO"},
{-51,"Unable to initialize the SSL Context"},
{-31,"The STARTTLS command has timed out"},
{-30,"Unable to send the STARTTLS command"},
{-21,"The EHLO command has timed out"},
{-20,"Unable to send the EHLO command"},
{-10,"Error in delayed connection"},
{-9,"Unable to get socket options"},
{-8,"Unable to set socket file descriptor status flags"},
{-7,"Unable to get socket file descriptor status flags"},
{-6,"Unable to get host by name"},
{-5,"Unable to get address info (Winsock)"},
{-4,"Unable to start WSA (Winsock)"},
{-3,"The connection attempt has timed out"},
{-2,"Unable to connect to the socket"},
{-1,"Unable to create the socket"},
{334,"Token based authentication failed. See https://support.google.com/mail/thread/204884242/334-authentication-unsuccessful?hl=en"},
{530,"Authentication required"},
{534,"Authentication mechanism is too weak"},
{535,"Authentication credentials invalid"},
{538,"Encryption required for requested authentication mechanism"},
